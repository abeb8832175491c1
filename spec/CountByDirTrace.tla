-------------------------- MODULE CountByDirTrace --------------------------
EXTENDS TraceLib
VARIABLES c, res, l
C == INSTANCE CountByDir WITH NumDirs <- 1, MaxCount <- 1

Step(r) ==
  CASE r.op = "new"    -> C!New(r.d, r.v)
    [] r.op = "empty"  -> c' = <<>> /\ res' = 0
    [] r.op = "total"  -> C!Total
    [] r.op = "get"    -> C!Get(r.d)
    [] r.op = "set"    -> C!Set(r.d, r.v)
    [] r.op = "add"    -> C!Add(r.d)
    [] r.op = "reduce" -> C!Reduce(r.d)
    [] r.op = "all"    -> C!All

Init == c = <<>> /\ res = 0 /\ l = 1
Next ==
  /\ l <= Len(Trace)
  /\ Trace[l].ok
  /\ Step(Trace[l])
  /\ res' = Trace[l].res
  /\ l' = l + 1
Spec == Init /\ [][Next]_<<c, res, l>>
=============================================================================
