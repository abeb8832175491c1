---------------------------- MODULE ShippingTrace ----------------------------
EXTENDS TraceLib
VARIABLES l
S == INSTANCE Shipping WITH Bytes <- 0, Vals <- {}, parts <- {}, described <- {},
                            mem <- <<>>, dest <- <<>>, phase <- ""
Allowed(r) ==
  /\ r.ev = "ship" /\ r.ok
  /\ S!Arrives(r.sent, r.received)
  /\ S!Arrives(r.sent, r.cloned)
  /\ S!Gathered(r.sent, 2, r.gathered)
Init == l = 1
Next == l <= Len(Trace) /\ Allowed(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
