------------------------------ MODULE Chemistry ------------------------------
(* How the state x of the gas in a cell is advanced over a time step of       *)
(* 2^Depth units: a step that would change x by more than a given fraction    *)
(* (here one half) of it is replaced by two of half the length, down to a     *)
(* largest depth, where it is given up. After each step x is put back between *)
(* its limits: 1..Top-1 (0 and Top stand for a fraction of exactly 0 and 1),  *)
(* or, if cooling is prevented, not below the x it started with.              *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Top, Depth,
          RawFloor    \* TRUE: the floor is the initial x even if that is 0 or Top
VARIABLES x0, floor, slope,  \* the input; x changes by slope per unit of time
          x, todo,           \* lengths (in powers of two) of the steps left
          failed, passed, unit
vars == <<x0, floor, slope, x, todo, failed, passed, unit>>

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Scale == 8
Lo == Scale
Hi == Scale * (Top - 1)
Bottom == IF floor THEN (IF RawFloor THEN x0 ELSE Clamp(x0, Lo, Hi)) ELSE Lo
(* The limits have to be in order.                                            *)
Limit(v) == Clamp(v, Bottom, Hi)

Init ==
  /\ x0 \in { Scale * k : k \in 0..Top }
  /\ floor \in BOOLEAN
  /\ slope \in -3..3
  /\ x = x0
  /\ todo = <<Depth>> /\ failed = FALSE /\ passed = 0 /\ unit = Depth

Pow2(n) == 2 ^ n
Change(n) == slope * Pow2(n)
Abs(v) == IF v < 0 THEN -v ELSE v
Accept ==
  /\ todo # <<>> /\ ~failed
  /\ \E y \in {Limit(x)} :
       /\ 2 * Abs(Change(Head(todo))) <= y
       /\ x' = Limit(y + Change(Head(todo)))
  /\ passed' = passed + Pow2(Head(todo))
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<x0, floor, slope, failed, unit>>
Split ==
  /\ todo # <<>> /\ ~failed
  /\ 2 * Abs(Change(Head(todo))) > Limit(x)
  /\ x' = Limit(x)
  /\ IF Head(todo) > 0 THEN todo' = <<Head(todo) - 1, Head(todo) - 1>> \o Tail(todo) /\ failed' = FALSE
     ELSE failed' = TRUE /\ todo' = todo
  /\ UNCHANGED <<x0, floor, slope, passed, unit>>
Done == todo = <<>> \/ failed
Next == Accept \/ Split \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InOrder == Bottom <= Hi
Started == x # x0 \/ passed > 0
InRange == Started => x >= Lo /\ x <= Hi
KeptAbove == floor => x >= Min2(x0, Hi)
(* The whole time step is covered, by steps in their order.                   *)
Covered == (todo = <<>> => passed = Pow2(Depth)) /\ passed <= Pow2(Depth)
(* It is given up only if the shortest step is too long, which is never the   *)
(* case for a change that is small compared to the smallest x.                *)
GivenUp == failed => 2 * Abs(slope) > Lo
(* Gas that gains does gain.                                                  *)
Gains == (Done /\ slope > 0) => x > x0 \/ x = Hi
Ends == <>Done
=============================================================================
