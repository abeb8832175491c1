--------------------------- MODULE ExchangeRounds ---------------------------
(* What an exchange between all ranks is for those who use it: a sequence of *)
(* rounds. In each round every rank says what it has for the others, and     *)
(* gets what the others have for it in the same round. Nobody leaves a round *)
(* before everybody has entered it.                                          *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Nothing          \* what is received if nothing was sent
VARIABLES ranks,          \* the ranks that take part
          round,          \* round[r]: number of rounds r has entered
          left,           \* left[r]: number of rounds r has left
          sent            \* sent[r]: per round, what r had for each rank (a function on ranks)
avars == <<ranks, round, left, sent>>

Start(R) == /\ ranks' = R
            /\ round' = [r \in R |-> 0] /\ left' = [r \in R |-> 0]
            /\ sent' = [r \in R |-> <<>>]

Begin(r, data) ==
  /\ r \in ranks /\ left[r] = round[r]
  /\ round' = [round EXCEPT ![r] = @ + 1]
  /\ sent' = [sent EXCEPT ![r] = Append(@, data)]
  /\ UNCHANGED <<ranks, left>>

(* What r gets in its current round from p. *)
Due(p, r) == sent[p][round[r]][r]

End(r, got) ==
  /\ r \in ranks /\ left[r] = round[r] - 1
  /\ \A p \in ranks : round[p] >= round[r]
  /\ DOMAIN got = ranks \ {r}
  /\ \A p \in DOMAIN got : got[p] = Due(p, r)
  /\ left' = [left EXCEPT ![r] = @ + 1]
  /\ UNCHANGED <<ranks, round, sent>>

AllDone == \A r, p \in ranks : left[r] = round[r] /\ round[r] = round[p]
=============================================================================
