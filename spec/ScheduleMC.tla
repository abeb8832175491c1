----------------------------- MODULE ScheduleMC -----------------------------
(* A run of time steps with cells that change their level in every step: all  *)
(* cells cover the same time, a cell is updated at the end of every interval  *)
(* of its own time step and at no other time, and after the first steps the   *)
(* time lies on multiples of the largest time step.                           *)
EXTENDS Schedule, TLC
CONSTANTS MaxLevels, MaxSteps, Cells
VARIABLES levels, step, sweep, level, covered, now
vars == <<levels, step, sweep, level, covered, now>>

(* Time in units of the shortest time step. *)
Dt(v) == Pow2(levels - 1 - v)
Init ==
  /\ levels \in 1..MaxLevels
  /\ step = 1 /\ sweep = 0
  /\ level = [c \in Cells |-> levels - 1]
  /\ covered = [c \in Cells |-> 0]
  /\ now = 0

Sweep ==
  /\ sweep < SweepsIn(levels, step)
  /\ covered' = [c \in Cells |-> covered[c] +
       (IF level[c] >= LevelOf(levels, step, sweep) THEN Dt(level[c]) ELSE 0)]
  /\ sweep' = sweep + 1
  /\ UNCHANGED <<levels, step, level, now>>

NextStep ==
  /\ sweep = SweepsIn(levels, step) /\ step < MaxSteps
  /\ step' = step + 1 /\ sweep' = 0
  /\ now' = now + Dt(Lowest(levels, step))
  /\ level' \in [Cells -> Lowest(levels, step + 1)..(levels - 1)]
  /\ covered' = [c \in Cells |-> 0]
  /\ UNCHANGED levels

Next == Sweep \/ NextStep \/ (step = MaxSteps /\ sweep = SweepsIn(levels, step) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

(* The time covered by a cell is its own time step rounded up, never more.   *)
Aligned ==
  \A c \in Cells :
    LET d == Dt(level[c]) IN
      covered[c] = IF sweep = 0 THEN 0 ELSE d * ((sweep - 1) \div d + 1)
SameTime ==
  sweep = SweepsIn(levels, step) =>
    \A c \in Cells : covered[c] = Dt(Lowest(levels, step))
Updates ==
  \A c \in Cells : \A n \in 1..NumSweeps(levels, step, level[c]) :
    NthSweep(levels, step, level[c], n) = (n - 1) * Dt(level[c])
Cadence == step > levels + 1 => now % Pow2(levels - 1) = 0
=============================================================================
