-------------------------- MODULE PointToPointTrace --------------------------
EXTENDS TraceLib
VARIABLES wire, history, taken, l
P == INSTANCE PointToPoint WITH Ranks <- {}, Classes <- {}, MaxMessages <- 0

Step(r) ==
  CASE r.ev = "run"  -> P!Start(0..(r.n - 1), 0..3)
    [] r.ev = "send" -> P!Send(r.rank, r.peer, r.class, r.data)
    [] r.ev = "recv" -> P!Receive(r.rank, r.peer, r.class, r.data)
    [] r.ev = "done" -> /\ P!AllTaken /\ taken = history
                        /\ r.leftover = 0 /\ r.unfinished = 0
                        /\ UNCHANGED <<wire, history, taken>>
    [] OTHER -> FALSE

Init == wire = <<>> /\ history = <<>> /\ taken = <<>> /\ l = 1
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<wire, history, taken, l>>
=============================================================================
