-------------------------- MODULE DataByRankTrace --------------------------
EXTENDS TraceLib
VARIABLES m, res, l

D == INSTANCE DataByRank

Step(r) ==
  CASE r.op = "empty"          -> D!Empty
    [] r.op = "default_others" -> D!Others(r.a[1], r.a[2], <<>>)
    [] r.op = "same_others"    -> D!Others(r.a[1], r.a[2], r.v[1])
    [] r.op = "same_all"       -> D!All(r.a[1], r.v[1])
    [] r.op = "from_iter"      -> D!FromItems(r.v[2])
    [] r.op = "inserted"       -> D!Inserted(r.a[1], r.a[2], r.v[2])
    [] r.op = "insert"         -> D!Insert(r.a, r.v)
    [] r.op = "get"            -> D!Get(r.a)
    [] r.op = "remove"         -> D!Remove(r.a)
    [] r.op = "set"            -> D!Set(r.a, r.v)
    [] r.op = "index_push"     -> D!Push(r.a, r.v)
    [] r.op = "iter_mut_push"  -> D!PushAll(r.v)
    [] r.op \in {"iter", "into_iter"} -> D!Iter
    [] r.op = "size"           -> D!Size
    [] r.op = "drain"          -> D!Drain

Init == D!Init /\ l = 1
Next ==
  /\ l <= Len(Trace)
  /\ Trace[l].ok
  /\ Step(Trace[l])
  /\ res' = Trace[l].res
  /\ l' = l + 1
Spec == Init /\ [][Next]_<<m, res, l>>
=============================================================================
