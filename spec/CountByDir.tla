----------------------------- MODULE CountByDir -----------------------------
(* How many upwind neighbours of a cell are still missing, for each          *)
(* direction. This is what decides when a cell may be solved.                *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES c, res
vars == <<c, res>>

RECURSIVE SumUp(_)
SumUp(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumUp(Tail(s))

New(n, v) == c' = [k \in 1..n |-> v] /\ res' = 0
Total     == UNCHANGED c /\ res' = SumUp(c)
Get(d)    == UNCHANGED c /\ res' = c[d + 1]
Set(d, v) == c' = [c EXCEPT ![d + 1] = v] /\ res' = 0
Add(d)    == c' = [c EXCEPT ![d + 1] = @ + 1] /\ res' = 0
Reduce(d) == c[d + 1] > 0 /\ c' = [c EXCEPT ![d + 1] = @ - 1] /\ res' = c'[d + 1]
All       == UNCHANGED c /\ res' = c

CONSTANTS NumDirs, MaxCount
Dirs == 0..(NumDirs - 1)
Init == c = [k \in 1..NumDirs |-> MaxCount] /\ res = 0
Next ==
  \/ \E v \in 0..MaxCount : New(NumDirs, v)
  \/ Total \/ All
  \/ \E d \in Dirs : Get(d) \/ Reduce(d) \/ \E v \in 0..MaxCount : Set(d, v)
  \/ \E d \in Dirs : c[d + 1] < MaxCount /\ Add(d)
Spec == Init /\ [][Next]_vars

NeverNegative == \A k \in DOMAIN c : c[k] >= 0
(* Reducing one direction takes exactly one from the total and leaves the others alone. *)
OneLess ==
  [][\A d \in Dirs : Reduce(d) => /\ SumUp(c') = SumUp(c) - 1
                                  /\ \A k \in DOMAIN c : k # d + 1 => c'[k] = c[k]]_vars
=============================================================================
