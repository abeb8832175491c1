--------------------------- MODULE DirectionsTrace ---------------------------
EXTENDS TraceLib
VARIABLES l
D == INSTANCE Directions WITH rot <- <<>>

Allowed(r) ==
  CASE r.kind = "table" -> /\ D!Even(r.dirs, r.n)
                         \* to the precision with which they are given: 1e-6 in a vector
                         /\ r.norm <= 300 /\ \A i \in 1..3 : Abs(r.sum[i]) <= 1000
    [] r.kind = "rotation" ->
         /\ r.ok
         /\ D!IsRotation(r.m)
         /\ \A i \in 1..3 : D!Near(D!Applied(r.m, r.v)[i], r.mv[i], 5)
         /\ r.same            \* the same seed gives the same rotations
         /\ r.fresh           \* one after the other they differ
         /\ r.err <= 1000     \* lengths, angles and handedness, to 1e-7
    [] r.kind = "axis" -> r.ok /\ r.err <= 1000

Init == l = 1
Next == l <= Len(Trace) /\ Allowed(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
