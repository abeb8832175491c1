------------------------------ MODULE Schedule ------------------------------
(* Time step levels: a cell at level v advances in steps of maxdt / 2^v and   *)
(* takes part in the sweeps of every level up to its own. The first two time  *)
(* steps of a run use the highest level only; then one more level is allowed  *)
(* per time step, until level 0 is.                                           *)
EXTENDS Integers, Sequences

RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)

Lowest(levels, step) ==
  LET x == levels - 1 - (IF step <= 2 THEN 0 ELSE step - 2) IN IF x < 0 THEN 0 ELSE x

RECURSIVE LowestBit(_)
LowestBit(i) == IF i % 2 = 1 THEN 0 ELSE 1 + LowestBit(i \div 2)

(* The sweeps of one time step are numbered from 0. *)
SweepsIn(levels, step) == Pow2(levels - 1 - Lowest(levels, step))
LevelOf(levels, step, i) ==
  IF i = 0 THEN Lowest(levels, step) ELSE levels - 1 - LowestBit(i)

(* How often a cell at level v takes part in a time step, and when.          *)
NumSweeps(levels, step, v) == Pow2(v - Lowest(levels, step))
RECURSIVE NthFrom(_, _, _, _, _)
NthFrom(levels, step, v, n, i) ==
  IF i >= SweepsIn(levels, step) THEN i + n
  ELSE IF LevelOf(levels, step, i) <= v
       THEN IF n = 1 THEN i ELSE NthFrom(levels, step, v, n - 1, i + 1)
       ELSE NthFrom(levels, step, v, n, i + 1)
NthSweep(levels, step, v, n) == NthFrom(levels, step, v, n, 0)

(* The coarsest allowed level whose step does not exceed the timescale t.    *)
DesiredLevel(levels, lowest, maxdt, t) ==
  LET ok == { v \in lowest..(levels - 1) : maxdt <= t * Pow2(v) }
  IN  IF ok = {} THEN levels - 1 ELSE CHOOSE v \in ok : \A w \in ok : v <= w
=============================================================================
