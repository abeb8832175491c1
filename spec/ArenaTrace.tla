----------------------------- MODULE ArenaTrace -----------------------------
EXTENDS TraceLib
VARIABLES store, given, res, l
A == INSTANCE Arena WITH MaxHandles <- 1, Vals <- {}

Step(r) ==
  CASE r.op = "new"      -> A!New
    [] r.op = "insert"   -> A!Insert(r.v) /\ r.h = given
    [] r.op = "remove"   -> A!Remove(r.h)
    [] r.op = "get"      -> A!Get(r.h)
    [] r.op = "contains" -> A!Contains(r.h)
    [] r.op = "len"      -> A!Count
    [] r.op = "set"      -> A!Set(r.h, r.v)
    [] r.op = "iter"     -> A!Iter
    [] r.op = "values"   -> A!Values

Init == A!Init /\ l = 1
Next ==
  /\ l <= Len(Trace)
  /\ Trace[l].ok
  /\ Step(Trace[l])
  /\ res' = Trace[l].res
  /\ l' = l + 1
Spec == Init /\ [][Next]_<<store, given, res, l>>
=============================================================================
