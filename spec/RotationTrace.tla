--------------------------- MODULE RotationTrace ---------------------------
(* Sweeps of the real code with directions that are rotated: at the end of    *)
(* every time step each cell has, for each of the directions there were in    *)
(* it, its source and the shares of what its upwind neighbours send out.      *)
(* What has crossed a periodic boundary goes on, in the new direction, in the *)
(* next sweep: with a single level and transparent gas all is known.          *)
(* Directions and rates are in units of 1 / r.one.                            *)
EXTENDS TraceLib
VARIABLES l, r, dirs, cells, old, got, steps
vars == <<l, r, dirs, cells, old, got, steps>>
Rec == Trace[l]
Init == l = 1 /\ r = [ranks |-> 0] /\ dirs = <<>> /\ cells = <<>> /\ got = {} /\ steps = 0 /\ old = <<>>

Run ==
  /\ Rec.ev = "run" /\ r' = Rec
  /\ dirs' = <<>> /\ cells' = [c \in DOMAIN Rec.rank |-> [in |-> <<>>]] /\ got' = {} /\ steps' = 0 /\ old' = <<>>

Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Pos(x) == IF x > 0 THEN x ELSE 0
Square == r.one * r.one
Unit(d) == Abs(Dot(d, d) - Square) <= 4 * r.one
(* A rotation keeps the angles, and it is not none.                          *)
Rotated(a, b) ==
  /\ Len(a) = Len(b) /\ a # b
  /\ \A i \in 1..Min2(Len(a), 6) : \A j \in DOMAIN a : Abs(Dot(a[i], a[j]) - Dot(b[i], b[j])) <= 8 * r.one

Upwind(c, d) == SelectSeq(r.faces[c], LAMBDA f : f.to # 0 /\ Dot(f.n, d) < 0)
Through(c, d) == SumSeq([i \in DOMAIN r.faces[c] |-> Pos(Dot(r.faces[c][i].n, d))])
Expected(cs, c, k, d) ==
  r.one * r.sources[c] +
    SumSeq([i \in DOMAIN Upwind(c, d) |->
       LET f == Upwind(c, d)[i] IN (cs[f.to]["out"][k] * (-Dot(f.n, d))) \div Through(f.to, d)])
RightRates(cs, ds) ==
  \A c \in DOMAIN cs : \A k \in DOMAIN ds :
    /\ Abs(cs[c]["in"][k] - Expected(cs, c, k, ds[k])) <= 8 + (cs[c]["in"][k] \div 500)
    /\ cs[c]["out"][k] >= 0
    /\ ~r.periodic => cs[c]["out"][k] <= cs[c]["in"][k] + 2

(* The old directions that are nearest to a new one, up to the accuracy.      *)
Nearest(d, ds) ==
  LET best == CHOOSE b \in {Dot(d, ds[j]) : j \in DOMAIN ds} : \A j \in DOMAIN ds : Dot(d, ds[j]) <= b
  IN  {j \in DOMAIN ds : Dot(d, ds[j]) >= best - 8 * r.one}
Near(cs, c, k, d) ==
  SumSeq([i \in DOMAIN Upwind(c, d) |->
     LET f == Upwind(c, d)[i] IN IF f.per THEN 0 ELSE (cs[f.to]["out"][k] * (-Dot(f.n, d))) \div Through(f.to, d)])
CarriedOn(previous, olddirs, cs, ds) ==
  \A k \in DOMAIN ds : \E near \in {TLCEval(Nearest(ds[k], olddirs))} : \A c \in DOMAIN cs :
    \E j \in near :
      LET x == r.one * r.sources[c] + Near(cs, c, k, ds[k]) + previous[c]["far"][j]
      IN  Abs(cs[c]["out"][k] - x) <= 8 + (x \div 500)

Rates ==
  /\ Rec.ev = "rates" /\ Rec.rank \notin got
  /\ Rec.step = steps + 1
  /\ LET mine == {c \in DOMAIN r.rank : r.rank[c] = Rec.rank}
         all == [c \in DOMAIN r.rank |-> IF c \in mine THEN Rec.cells[c] ELSE cells[c]]
         complete == Cardinality(got) = r.ranks - 1
         last == IF got = {} THEN dirs ELSE dirs[1]
     IN  /\ (\A i \in DOMAIN Rec.dirs : Unit(Rec.dirs[i])) = TRUE
         /\ (IF got # {} THEN dirs[2] = Rec.dirs ELSE dirs = <<>> \/ Rotated(dirs, Rec.dirs)) = TRUE
         /\ complete => RightRates(all, Rec.dirs) = TRUE
         /\ complete /\ r.exact /\ steps > 0 => CarriedOn(old, last, all, Rec.dirs) = TRUE
         /\ old' = IF complete THEN all ELSE old
         /\ cells' = all
         /\ dirs' = IF complete THEN Rec.dirs ELSE <<last, Rec.dirs>>
         /\ got' = IF complete THEN {} ELSE got \cup {Rec.rank}
         /\ steps' = IF complete THEN steps + 1 ELSE steps
  /\ UNCHANGED r
Finished ==
  /\ Rec.ev = "done" /\ Rec.leftover = 0 /\ Rec.unfinished = 0
  /\ steps = r.steps /\ got = {} /\ UNCHANGED <<r, dirs, cells, old, got, steps>>

Next == l <= Len(Trace) /\ (Run \/ Rates \/ Finished) /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
