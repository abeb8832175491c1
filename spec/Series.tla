------------------------------- MODULE Series -------------------------------
(* Averages over all cells as a function of time. All ranks do a time step    *)
(* together: each changes its own cells and adds them up, the sums are        *)
(* gathered (nobody gets a result before all have given theirs), and rank 1   *)
(* adds the average to the file, with the time. A run may find the output of  *)
(* an earlier one: it stops, replaces the files it writes, or deletes it all. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ranks, Cells, Values, Steps
VARIABLES owner, val, step, given, went, file, history, mode, old, phase
vars == <<owner, val, step, given, went, file, history, mode, old, phase>>

Earlier == <<[time |-> 99, sum |-> 99]>>
Modes == {"fresh", "panic", "overwrite", "delete"}
Init ==
  /\ owner \in [Cells -> 1..Ranks]
  /\ val = [c \in Cells |-> 0] /\ step = [r \in 1..Ranks |-> 0]
  /\ given = [r \in 1..Ranks |-> -1] /\ went = [r \in 1..Ranks |-> FALSE]
  /\ mode \in Modes
  /\ old = (mode # "fresh")
  /\ file = IF mode = "fresh" THEN <<>> ELSE Earlier
  /\ history = <<>> /\ phase = "start"

Start ==
  /\ phase = "start"
  /\ IF mode = "panic" THEN phase' = "refused" /\ UNCHANGED <<file, old>>
     ELSE phase' = "run" /\ file' = <<>> /\ old' = (mode = "overwrite")
  /\ UNCHANGED <<owner, val, step, given, went, history, mode>>

RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN f[c] + SumOf(f, S \ {c})
Mine(r) == {c \in Cells : owner[c] = r}

(* a time step of rank r, with any outcome for its cells *)
Change(r) ==
  /\ phase = "run" /\ step[r] < Steps /\ given[r] = -1 /\ ~went[r]
  /\ \E new \in [Mine(r) -> Values] :
       /\ val' = [c \in Cells |-> IF c \in Mine(r) THEN new[c] ELSE val[c]]
       /\ given' = [given EXCEPT ![r] = SumOf(new, Mine(r))]
       /\ history' = IF Len(history) < step[r] + 1 THEN Append(history, SumOf(new, Mine(r)))
                     ELSE [history EXCEPT ![step[r] + 1] = @ + SumOf(new, Mine(r))]
  /\ step' = [step EXCEPT ![r] = @ + 1]
  /\ UNCHANGED <<owner, went, file, mode, old, phase>>

(* All have given: the sum is known, rank 1 writes it down. *)
Gather ==
  /\ phase = "run" /\ \A r \in 1..Ranks : given[r] # -1 /\ ~went[r]
  /\ file' = Append(file, [time |-> step[1], sum |-> SumOf(given, 1..Ranks)])
  /\ went' = [r \in 1..Ranks |-> TRUE]
  /\ UNCHANGED <<owner, val, step, given, history, mode, old, phase>>
Leave(r) ==
  /\ went[r] /\ went' = [went EXCEPT ![r] = FALSE] /\ given' = [given EXCEPT ![r] = -1]
  /\ UNCHANGED <<owner, val, step, file, history, mode, old, phase>>
AllDone == phase = "refused" \/ (phase = "run" /\ \A r \in 1..Ranks : step[r] = Steps /\ given[r] = -1)
Next == Start \/ Gather \/ (\E r \in 1..Ranks : Change(r) \/ Leave(r)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* One entry for each time step, in order, with the sum over all cells. *)
Right == phase = "run" =>
  \A k \in DOMAIN file : file[k] = [time |-> k, sum |-> history[k]]
Complete == AllDone /\ phase = "run" => Len(file) = Steps
(* Nothing of an earlier run is lost or mixed in unless that was wanted. *)
Kept == (phase = "refused" => file = Earlier /\ old) /\ (phase = "run" => (old <=> mode = "overwrite"))
Ends == <>AllDone
=============================================================================
