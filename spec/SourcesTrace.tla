---------------------------- MODULE SourcesTrace ----------------------------
(* What the real code does with sources: which of them were added to which      *)
(* particles (rates are powers of two, so that sums tell), and the total          *)
(* luminosity that is written, once, to the time series.                          *)
EXTENDS TraceLib, SequencesExt
VARIABLES l, run, got
vars == <<l, run, got>>
Rec == Trace[l]
Init == l = 1 /\ run = [ranks |-> 0] /\ got = <<>>

Start == Rec.ev = "start" /\ run' = Rec /\ got' = <<>>
Square(x) == x * x
Distance(p, q) == Square(p[1] - q[1]) + Square(p[2] - q[2]) + Square(p[3] - q[3])
Nearest(tag, s) == \A t \in DOMAIN run.pos : Distance(run.pos[t], run.at[s]) >= Distance(run.pos[tag], run.at[s])
End ==
  /\ Rec.ev = "end"
  /\ \A k \in DOMAIN Rec.held : LET h == Rec.held[k] IN
       h.tag \in DOMAIN run.pos /\ \A j \in DOMAIN h.sources : h.sources[j] \in DOMAIN run.at /\ (Nearest(h.tag, h.sources[j])) = TRUE
  /\ got' = got \o Rec.held
  /\ UNCHANGED run
(* All particles were seen once, and every source was added once.                *)
Done ==
  /\ Rec.ev = "done" /\ Rec.leftover = 0 /\ Rec.unfinished = 0
  /\ Len(got) = Len(run.pos) /\ { got[k].tag : k \in DOMAIN got } = DOMAIN run.pos
  /\ LET all == FoldLeft(LAMBDA a, h : a \o h.sources, <<>>, got)
     IN  Len(all) = Len(run.at) /\ Range(all) = DOMAIN run.at
  /\ UNCHANGED <<run, got>>
Luminosity ==
  /\ Rec.ev = "luminosity"
  /\ Rec.entries = <<[time |-> 0, value |-> 2 ^ Len(run.at) - 1]>>
  /\ UNCHANGED <<run, got>>
Next == l <= Len(Trace) /\ (Start \/ End \/ Done \/ Luminosity) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
