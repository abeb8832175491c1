------------------------------- MODULE Remap -------------------------------
(* Every particle looks for the nearest particle of a previous run. Both are    *)
(* distributed over the ranks, not necessarily in the same way, and a rank may    *)
(* have none. The ranks tell each other the extent of what they have of the        *)
(* previous run, search at home, ask those ranks whose extent is nearer than       *)
(* what they found, and take the best of all answers. Telling, asking and          *)
(* answering are collective: nobody leaves before all have entered. Positions      *)
(* are places on a line.                                                           *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Ranks, Last, MaxOld, MaxNew
VARIABLES new,      \* particle (its place) -> rank
          old,      \* particle of the previous run (its place) -> rank
          pc, extent, best, asked
vars == <<new, old, pc, extent, best, asked>>

R == 0..Ranks-1
Far == 1000
None == <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Mine(f, r) == { p \in DOMAIN f : f[p] = r }
Placed(m) == UNION { [P -> R] : P \in { Q \in SUBSET (0..Last) : Q # {} /\ Cardinality(Q) <= m } }
Init ==
  /\ new \in Placed(MaxNew) /\ old \in Placed(MaxOld)
  /\ pc = [r \in R |-> "start"] /\ extent = [r \in R |-> None]
  /\ best = [p \in DOMAIN new |-> None] /\ asked = [r \in R |-> [q \in R |-> {}]]

Go(r, a, b) == pc[r] = a /\ pc' = [pc EXCEPT ![r] = b]
Passed(S) == \A q \in R : pc[q] \notin S

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
(* The nearest of a set; of two equally near ones any.                             *)
NearestOf(S, p) == { o \in S : \A q \in S : Abs(p - o) <= Abs(p - q) }

Tell(r) ==
  /\ Go(r, "start", "told")
  /\ extent' = [extent EXCEPT ![r] = IF Mine(old, r) = {} THEN None ELSE <<MinOf(Mine(old, r)), MaxOf(Mine(old, r))>>]
  /\ UNCHANGED <<new, old, best, asked>>
(* At home first.                                                                  *)
SearchHome(r) ==
  /\ Passed({"start"}) /\ Go(r, "told", "searched")
  /\ \E f \in [Mine(new, r) -> Mine(old, r) \cup {Far}] :
       /\ \A p \in Mine(new, r) : IF Mine(old, r) = {} THEN f[p] = Far ELSE f[p] \in NearestOf(Mine(old, r), p)
       /\ best' = [p \in DOMAIN new |-> IF p \in Mine(new, r) /\ f[p] # Far THEN <<f[p]>> ELSE best[p]]
  /\ UNCHANGED <<new, old, extent, asked>>
DistanceTo(e, p) == IF p < e[1] THEN e[1] - p ELSE IF p > e[2] THEN p - e[2] ELSE 0
Found(p) == IF best[p] = None THEN Far ELSE Abs(p - best[p][1])
Ask(r) ==
  /\ Go(r, "searched", "asked")
  /\ asked' = [asked EXCEPT ![r] = [q \in R |-> IF q = r \/ extent[q] = None THEN {}
                                               ELSE { p \in Mine(new, r) : DistanceTo(extent[q], p) < Found(p) }]]
  /\ UNCHANGED <<new, old, extent, best>>
Answer(r) ==
  /\ Passed({"start", "told", "searched"}) /\ Go(r, "asked", "answered")
  /\ UNCHANGED <<new, old, extent, best, asked>>
(* The answers of all ranks that were asked.                                       *)
Answers(r, p) == UNION { NearestOf(Mine(old, q), p) : q \in { q \in R : p \in asked[r][q] } }
Take(r) ==
  /\ Passed({"start", "told", "searched", "asked"}) /\ Go(r, "answered", "done")
  /\ \E f \in [Mine(new, r) -> DOMAIN old \cup {Far}] :
       /\ \A p \in Mine(new, r) :
            f[p] \in LET all == Answers(r, p) \cup (IF best[p] = None THEN {} ELSE {best[p][1]})
                     IN  IF all = {} THEN {Far} ELSE NearestOf(all, p)
       /\ best' = [p \in DOMAIN new |-> IF p \in Mine(new, r) THEN (IF f[p] = Far THEN None ELSE <<f[p]>>) ELSE best[p]]
  /\ UNCHANGED <<new, old, extent, asked>>
Done == \A r \in R : pc[r] = "done"
Next == (\E r \in R : Tell(r) \/ SearchHome(r) \/ Ask(r) \/ Answer(r) \/ Take(r)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Nearest == \A p \in DOMAIN new : pc[new[p]] = "done" => best[p] # None /\ best[p][1] \in NearestOf(DOMAIN old, p)
(* Nobody is asked in vain who has nothing.                                        *)
OnlyOwners == \A r, q \in R : asked[r][q] # {} => Mine(old, q) # {}
Ends == <>Done
=============================================================================
