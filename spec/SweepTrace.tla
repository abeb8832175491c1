----------------------------- MODULE SweepTrace -----------------------------
(* Runs of the real Sweep (any mesh of cells, any decomposition over ranks,   *)
(* several time step levels) against the rules of Sweep.tla. What a cell      *)
(* receives is a function of what its upwind neighbours sent out, whoever     *)
(* owns them and whenever they were last solved; nothing else enters.         *)
EXTENDS TraceLib, Schedule

CONSTANT What   \* the property to be decided: "order", "rates" or "levels"

VARIABLES l,
          r,        \* the record that describes the run
          step,     \* by rank (1..n): the current time step
          inside,   \* by rank: whether it is inside a time step
          level,    \* by cell: its time step level
          upd,      \* by cell: how often it was updated in this time step
          solved,   \* by cell: the directions solved since its last update
          outs,     \* by cell, direction: <<sweep, rate>> entries, oldest first
          scale,    \* by cell: the timescale after the last update
          spent     \* by cell: the time covered by the updates of this time step

vars == <<l, r, step, inside, level, upd, solved, outs, scale, spent>>

Cells == 1..Len(r.rank)
Dirs == 1..Len(r.dirs)
Owned(k) == { c \in Cells : r.rank[c] + 1 = k }
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Along(f, d) == Dot(f.n, r.dirs[d])
Pos(x) == IF x > 0 THEN x ELSE 0
Sum(s, F(_)) == SumSeq([i \in 1..Len(s) |-> F(s[i])])

(* The absolute number of the sweep cell c takes part in next. *)
PerStep == 1000
SweepOf(c) ==
  step[r.rank[c] + 1] * PerStep +
    NthSweep(r.levels, step[r.rank[c] + 1], level[c], upd[c] + 1)
ActiveIn(u, k) ==
  LET s == k \div PerStep IN level[u] >= LevelOf(r.levels, s, k % PerStep)

EntriesUpTo(u, d, k) == SelectSeq(outs[u][d], LAMBDA e : e[1] <= k)
OutAt(u, d, k) == LET e == EntriesUpTo(u, d, k) IN IF e = <<>> THEN 0 ELSE e[Len(e)][2]
SolvedIn(u, d, k) == \E i \in 1..Len(outs[u][d]) : outs[u][d][i][1] = k

(* What reaches c through its face f (which points upwind) of what the cell  *)
(* on the other side sends out.                                              *)
Share(f, d, x) == (x * (-Along(f, d))) \div
                    Sum(r.faces[f.to], LAMBDA g : Pos(Along(g, d)))
Upwind(c, d) == SelectSeq(r.faces[c], LAMBDA f : f.to # 0 /\ Along(f, d) < 0)
Near(c, d) == SelectSeq(Upwind(c, d), LAMBDA f : ~f.per)
Far(c, d) == SelectSeq(Upwind(c, d), LAMBDA f : f.per)
Local(c, f) == r.rank[f.to] = r.rank[c]

(* What crosses a periodic boundary is input of the next sweep.              *)
FarSum(c, d, k) == Sum(Far(c, d), LAMBDA f : Share(f, d, OutAt(f.to, d, k)))
NearSum(c, d, k) == Sum(Near(c, d), LAMBDA f : Share(f, d, OutAt(f.to, d, k)))
AllSum(c, d, k) == Sum(Upwind(c, d), LAMBDA f : Share(f, d, OutAt(f.to, d, k)))
TotalRate(c, k) == SumSeq([d \in Dirs |-> r.src[c] + AllSum(c, d, k)])

-----------------------------------------------------------------------------
Run(e) ==
  /\ e.ev = "run"
  /\ r' = e
  /\ step' = [k \in 1..e.ranks |-> 0]
  /\ inside' = [k \in 1..e.ranks |-> FALSE]
  /\ level' = [c \in 1..Len(e.rank) |-> e.levels - 1]
  /\ upd' = [c \in 1..Len(e.rank) |-> 0]
  /\ solved' = [c \in 1..Len(e.rank) |-> {}]
  /\ outs' = [c \in 1..Len(e.rank) |-> [d \in 1..Len(e.dirs) |-> <<>>]]
  /\ scale' = [c \in 1..Len(e.rank) |-> 0]
  /\ spent' = [c \in 1..Len(e.rank) |-> 0]

Begin(e) ==
  LET k == e.rank + 1 IN
  /\ e.ev = "begin"
  /\ ~inside[k] /\ e.step = step[k] + 1
  /\ step' = [step EXCEPT ![k] = @ + 1]
  /\ inside' = [inside EXCEPT ![k] = TRUE]
  /\ upd' = [c \in Cells |-> IF c \in Owned(k) THEN 0 ELSE upd[c]]
  /\ spent' = [c \in Cells |-> IF c \in Owned(k) THEN 0 ELSE spent[c]]
  /\ UNCHANGED <<r, level, solved, outs, scale>>

(* A cell is solved in one direction: once per sweep, and only after every   *)
(* neighbour upwind of it that takes part in the sweep.                      *)
Task(e) ==
  LET c == e.cell
      d == e.dir
      k == SweepOf(c)
  IN
  /\ e.ev = "task"
  /\ c \in Owned(e.rank + 1) /\ inside[e.rank + 1] /\ e.same
  /\ d \in Dirs /\ d \notin solved[c]
  /\ upd[c] < NumSweeps(r.levels, step[e.rank + 1], level[c])
  /\ What = "order" => \A i \in DOMAIN Near(c, d) :
       LET u == Near(c, d)[i].to IN ActiveIn(u, k) => SolvedIn(u, d, k)
  /\ What = "rates" => e["in"] = r.src[c] + NearSum(c, d, k) + FarSum(c, d, k - 1)
  /\ solved' = [solved EXCEPT ![c] = @ \cup {d}]
  /\ outs' = [outs EXCEPT ![c][d] =
       LET old == SelectSeq(@, LAMBDA x : x[1] >= (k \div PerStep) * PerStep)
           before == SelectSeq(@, LAMBDA x : x[1] < (k \div PerStep) * PerStep)
       IN  (IF before = <<>> THEN <<>> ELSE <<before[Len(before)]>>) \o old \o <<<<k, e.out>>>>]
  /\ UNCHANGED <<r, step, inside, level, upd, scale, spent>>

(* The update of a cell uses everything that reached it in this sweep.       *)
Chem(e) ==
  LET c == e.cell
      k == SweepOf(c)
      asked == e.rate >= r.threshold
      dt == r.maxdt \div Pow2(level[c])
      byrate == IF asked /\ r.rel > 0 THEN dt \div r.rel ELSE e.ts
  IN
  /\ e.ev = "chem"
  /\ c \in Owned(e.rank + 1) /\ inside[e.rank + 1] /\ e.same
  /\ solved[c] = Dirs
  /\ What = "order" => \A b \in Owned(e.rank + 1) : ActiveIn(b, k) =>
       \A d \in Dirs : SolvedIn(b, d, k)
  /\ What = "order" => \A d \in Dirs : \A i \in DOMAIN Upwind(c, d) :
       LET u == Upwind(c, d)[i].to IN ActiveIn(u, k) => SolvedIn(u, d, k)
  /\ What = "rates" => e.rate = TotalRate(c, k)
  /\ What = "levels" => e.dt = dt
  /\ What = "levels" => e.rel = IF asked THEN r.rel ELSE -1
  /\ solved' = [solved EXCEPT ![c] = {}]
  /\ upd' = [upd EXCEPT ![c] = @ + 1]
  /\ spent' = [spent EXCEPT ![c] = @ + dt]
  /\ scale' = [scale EXCEPT ![c] = Min2(e.ts, byrate)]
  /\ UNCHANGED <<r, step, inside, level, outs>>

(* Every cell has covered the same time, whatever its level, and has the     *)
(* rates of its neighbours, active in the last sweep or not.                 *)
End(e) ==
  LET k == e.rank + 1
      span == r.maxdt \div Pow2(Lowest(r.levels, step[k]))
  IN
  /\ e.ev = "end"
  /\ inside[k] /\ e.step = step[k]
  /\ What = "levels" => e.elapsed = span /\ \A c \in Owned(k) : spent[c] = span
  /\ What = "rates" => \A c \in Owned(k) : e.rates[c] = TotalRate(c, step[k] * PerStep + PerStep - 1)
  /\ \A c \in Owned(k) : solved[c] = {}
                         /\ upd[c] = NumSweeps(r.levels, step[k], level[c])
  /\ inside' = [inside EXCEPT ![k] = FALSE]
  /\ level' = [c \in Cells |-> IF c \in Owned(k) THEN e.levels[c] ELSE level[c]]
  /\ \A c \in Owned(k) : e.levels[c] \in Lowest(r.levels, step[k] + 1)..(r.levels - 1)
  /\ What = "levels" => \A c \in Owned(k) : e.levels[c] =
       DesiredLevel(r.levels, Lowest(r.levels, step[k] + 1), r.maxdt, scale[c])
  /\ UNCHANGED <<r, step, upd, solved, outs, scale, spent>>

Done(e) ==
  /\ e.ev = "done"
  /\ e.leftover = 0 /\ e.unfinished = 0
  /\ \A k \in 1..r.ranks : step[k] = r.steps /\ ~inside[k]
  /\ UNCHANGED <<r, step, inside, level, upd, solved, outs, scale, spent>>

Allowed(e) == Run(e) \/ Begin(e) \/ Task(e) \/ Chem(e) \/ End(e) \/ Done(e)

Init ==
  /\ l = 1 /\ r = [ranks |-> 0, rank |-> <<>>, dirs |-> <<>>]
  /\ step = <<>> /\ inside = <<>> /\ level = <<>> /\ upd = <<>> /\ solved = <<>>
  /\ outs = <<>> /\ scale = <<>> /\ spent = <<>>
Next == l <= Len(Trace) /\ Allowed(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
