----------------------------- MODULE RemapTrace -----------------------------
(* What the real code takes from the snapshots of a previous run: for every     *)
(* particle the temperature and ionized fraction of the nearest particle of       *)
(* that run, where they are higher than its own. Among equally near ones any      *)
(* may be taken, but both values from the same.                                   *)
EXTENDS TraceLib
VARIABLES l, run, got
vars == <<l, run, got>>
Rec == Trace[l]
Init == l = 1 /\ run = [ranks |-> 0] /\ got = <<>>

Start == Rec.ev = "start" /\ run' = Rec /\ got' = <<>>
Square(x) == x * x
Distance(p, q) == Square(p[1] - q[1]) + Square(p[2] - q[2]) + Square(p[3] - q[3])
Nearest(tag) == LET ds == TLCEval([k \in DOMAIN run.prev |-> Distance(run.pos[tag], run.prev[k].pos)])
                IN  { k \in DOMAIN ds : \A j \in DOMAIN ds : ds[j] >= ds[k] }
End ==
  /\ Rec.ev = "end"
  /\ \A k \in DOMAIN Rec.held : LET h == Rec.held[k] IN
       /\ h.tag \in DOMAIN run.pos
       /\ (\E q \in Nearest(h.tag) : /\ h.temp = Max2(run.temp[h.tag], run.prev[q].temp)
                                     /\ h.ion = Max2(run.ion[h.tag], run.prev[q].ion)) = TRUE
  /\ got' = got \o Rec.held
  /\ UNCHANGED run
Done ==
  /\ Rec.ev = "done" /\ Rec.leftover = 0 /\ Rec.unfinished = 0
  /\ Len(got) = Len(run.pos) /\ { got[k].tag : k \in DOMAIN got } = DOMAIN run.pos
  /\ UNCHANGED <<run, got>>
Next == l <= Len(Trace) /\ (Start \/ End \/ Done) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
