---------------------------- MODULE SeriesTrace ----------------------------
(* The time series of real runs. A cell is <<mass, volume, 16 x the ionized   *)
(* fraction, temperature, rate>>. Averages are in units of 1/4096 (fractions) *)
(* and 1/256 (the others), rounded.                                           *)
EXTENDS TraceLib
VARIABLES l, plan, done, before
vars == <<l, plan, done, before>>
Rec == Trace[l]
None == [ranks |-> 0]
Init == l = 1 /\ plan = None /\ done = <<>> /\ before = <<>>

Start ==
  /\ Rec.ev = "start" /\ plan' = Rec
  /\ done' = [r \in 1..Rec.ranks |-> <<>>]
  /\ UNCHANGED before

(* The step that starts at or after the final time is the last one. *)
Update ==
  /\ Rec.ev = "update" /\ plan # None
  /\ LET r == Rec.rank + 1
         n == Len(done[r])
         last == IF n = 0 THEN 0 ELSE done[r][n].time
     IN  /\ Rec.time = last + plan.steps[n + 1]
         /\ (IF n = 0 THEN TRUE ELSE (IF n = 1 THEN 0 ELSE done[r][n - 1].time) < plan.final)
         /\ done' = [done EXCEPT ![r] = Append(@, [time |-> Rec.time, cells |-> Rec.cells])]
  /\ UNCHANGED <<plan, before>>

RECURSIVE Sum(_, _, _)
Sum(s, W(_), i) == IF i = 0 THEN 0 ELSE W(s[i]) + Sum(s, W, i - 1)
Total(s, W(_)) == Sum(s, W, Len(s))

(* value / scale is the average of V with the weights W, to the rounding *)
Average(s, W(_), V(_), scale, part, value) ==
  Abs(value * Total(s, W) - Total(s, LAMBDA c : W(c) * V(c)) * (scale \div part)) <= Total(s, W)

M(c) == c[1]
Vol(c) == c[2]
X(c) == c[3]
T(c) == c[4]
R(c) == c[5]
XR(c) == c[3] * c[5]
All(k) == FlattenSeq([r \in DOMAIN done |-> done[r][k].cells])
Num == Len(done[1])
Masses(s) == [i \in DOMAIN s |-> s[i][1]]
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) : Count(a, x) = Count(b, x)

RightEntry(k) ==
  \E s \in {TLCEval(All(k))} :
    /\ SameBag(Masses(s), plan.masses)
    /\ \A q \in 1..6 : Rec.series[q][k][1] = done[1][k].time
    /\ Average(s, M, X, 4096, 16, Rec.series[1][k][2])
    /\ Average(s, Vol, X, 4096, 16, Rec.series[2][k][2])
    /\ Average(s, M, T, 256, 1, Rec.series[3][k][2])
    /\ Average(s, Vol, T, 256, 1, Rec.series[4][k][2])
    /\ Average(s, Vol, R, 256, 1, Rec.series[5][k][2])
    /\ Average(s, Vol, XR, 256, 16, Rec.series[6][k][2])

Refuse == plan.again /\ plan.mode \in {"", "panic"}
Stop ==
  /\ Rec.ev = "stop" /\ plan # None
  /\ Rec.refused <=> Refuse
  /\ IF Refuse THEN Rec.series = before /\ Rec.marker = 3 /\ \A r \in DOMAIN done : done[r] = <<>>
     ELSE /\ Rec.marker = (IF plan.again /\ plan.mode = "overwrite" THEN 3 ELSE 0)
          /\ \A r \in DOMAIN done : Len(done[r]) = Num
          /\ Num > 0
          /\ (IF Num = 1 THEN 0 ELSE done[1][Num - 1].time) >= plan.final
          /\ \A q \in 1..6 : Len(Rec.series[q]) = Num
          /\ (\A k \in 1..Num : RightEntry(k)) = TRUE
  /\ before' = Rec.series /\ plan' = None /\ UNCHANGED done
Finished == Rec.ev = "done" /\ Rec.leftover = 0 /\ Rec.unfinished = 0 /\ UNCHANGED <<plan, done, before>>

Next == l <= Len(Trace) /\ (Start \/ Update \/ Stop \/ Finished) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
