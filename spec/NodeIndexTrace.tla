--------------------------- MODULE NodeIndexTrace ---------------------------
EXTENDS TraceLib
VARIABLES l
NI(n) == INSTANCE NodeIndex WITH N <- n, MaxDepth <- 0, path <- <<>>, shipped <- <<>>

Allowed(r) ==
  /\ r.ok
  /\ r.child = NI(r.n)!Decode(r.n, r.byte)
  /\ r.back = NI(r.n)!Encode(r.n, r.child)
  /\ r.text = NI(r.n)!Text(r.child)

Init == l = 1
Next == l <= Len(Trace) /\ Allowed(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
