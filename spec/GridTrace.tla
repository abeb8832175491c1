------------------------------ MODULE GridTrace ------------------------------
(* Voronoi grids of simulations on several ranks. Areas are in units of the   *)
(* box length / 1024 squared, volumes accordingly, positions in units of      *)
(* 1/8 of this, everything rounded.                                           *)
EXTENDS TraceLib
LOCAL INSTANCE FiniteSetsExt
LOCAL INSTANCE SequencesExt
CONSTANT What     \* "geometry" or "neighbours"
VARIABLES l, run
Rec == Trace[l]
NoRun == [on |-> FALSE]

Sub == 8
Image(side, p, w) == [d \in 1..3 |-> p[d] + side * w[d]]
Neg(w) == [d \in 1..3 |-> -w[d]]
Zero == <<0, 0, 0>>
Cells(r) == UNION { Range(r.ranks[k].cells) : k \in DOMAIN r.ranks }
RankOf(c) == c.id[1]
Tiny == 4          \* faces that may be lost by rounding

Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Offset(r, c, f, at) == [d \in 1..3 |-> at[f.id].pos[d] + r.side * f.wrap[d] - c.pos[d]]
Half(v) == [d \in 1..3 |-> v[d] \div 2]
(* The face is perpendicular to the line to the neighbour and faces it.       *)
NormalOk(r, c, f, at) == LET o == Offset(r, c, f, at) IN
  \A i, j \in 1..3 : i < j =>
    /\ Abs(f.vec[i] * o[j] - f.vec[j] * o[i]) <= 3 * (f.area + 3) + Abs(o[i]) + Abs(o[j])
    /\ f.area > 100 /\ (\E d \in 1..3 : Abs(o[d]) >= 16) => Dot(f.vec, Half(o)) > 0
    /\ f.area > 100 => LET a == f.area \div 16  v == [d \in 1..3 |-> f.vec[d] \div 16]
                       IN  a < 20000 => Abs(a * a - Dot(v, v)) <= 8 * a + 64

(* ---- neighbours ---- *)
KindOk(r, c, f, at) ==
  IF f.kind = "boundary" THEN ~r.periodic
  ELSE /\ f.id \in DOMAIN at
       /\ f.rank = f.id[1]
       /\ f.kind = IF f.id[1] = RankOf(c)
                   THEN (IF f.wrap = Zero THEN "local" ELSE "localperiodic")
                   ELSE (IF f.wrap = Zero THEN "remote" ELSE "remoteperiodic")
       /\ (~r.periodic => f.wrap = Zero)

Reciprocal(c, f, at) == \E g \in Range(at[f.id].faces) :
  g.kind # "boundary" /\ g.id = c.id /\ g.wrap = Neg(f.wrap) /\ Abs(g.area - f.area) <= Tiny

(* The closest other particle (of the closest images) is a neighbour. *)
Closest(x, side) == LET y == x % side IN IF 2 * y > side THEN y - side ELSE y
Dist2(side, p, q) == LET d == [k \in 1..3 |-> Closest(q[k] - p[k], side) \div 4] IN d[1] * d[1] + d[2] * d[2] + d[3] * d[3]
NearestIsNeighbour(r, c, at) ==
  \E dist \in {TLCEval([i \in DOMAIN at \ {c.id} |-> Dist2(r.side, c.pos, at[i].pos)])} :
  \E all \in {TLCEval({ dist[i] : i \in DOMAIN dist })} :
  \E least \in {TLCEval(CHOOSE x \in all : \A y \in all : x <= y)} :
    LET close == { i \in DOMAIN dist : dist[i] <= least + least \div 16 + 2 }
        near == CHOOSE i \in close : TRUE
    IN  Cardinality(close) = 1 =>
          \/ \E f \in Range(c.faces) : f.kind # "boundary" /\ f.id = near
          \/ ~r.periodic /\ \E d \in 1..3 : Abs(at[near].pos[d] - c.pos[d]) * 2 > r.side

(* Particles of other ranks next to one of this rank are known as haloes. *)
HaloesOk(r, k, at) == LET x == r.ranks[k]
                          Here(c, f) == <<f.id, Image(r.side, at[f.id].pos, f.wrap)>> IN
  \E haloes \in {TLCEval({ <<h.id, h.pos>> : h \in Range(x.haloes) })} :
  /\ \A c \in Range(x.cells) : \A f \in Range(c.faces) :
       f.kind \in {"remote", "remoteperiodic"} => Here(c, f) \in haloes
  /\ Len(x.haloes) = Cardinality(haloes)
  /\ \A h \in Range(x.haloes) :
       /\ h.id \in DOMAIN at /\ h.rank = h.id[1] /\ h.rank # x.rank
       /\ \A d \in 1..3 : (h.pos[d] - at[h.id].pos[d]) % r.side = 0

NeighboursOk(r, at) ==
  /\ \A c \in Cells(r) :
       /\ \A f \in Range(c.faces) :
            /\ KindOk(r, c, f, at)
            /\ f.kind # "boundary" => NormalOk(r, c, f, at)
            /\ f.kind # "boundary" /\ f.area > Tiny => Reciprocal(c, f, at)
       /\ LET named == SelectSeq(c.faces, LAMBDA f : f.kind # "boundary")
          IN  Cardinality({ <<f.id, f.wrap>> : f \in Range(named) }) = Len(named)
       /\ NearestIsNeighbour(r, c, at)
  /\ \A k \in DOMAIN r.ranks : HaloesOk(r, k, at)

(* ---- geometry ---- *)
SumFaces(fs, d) == FoldLeft(LAMBDA sum, f : sum + f.vec[d], 0, fs)
(* three times the volume, from the areas and the distances, times 2 * Sub / 4 *)
SumPyramids(r, c, fs, at) == FoldLeft(LAMBDA sum, f :
    sum + Dot(f.vec, [d \in 1..3 |-> Offset(r, c, f, at)[d] \div 4]), 0, fs)

(* All faces together enclose the cell, whose volume they give. *)
CellOk(r, c, at) ==
  /\ c.cell /\ c.volume > 0 /\ Len(c.faces) >= 4
  /\ \A f \in Range(c.faces) : f.area >= 0 /\ (f.kind # "boundary" => NormalOk(r, c, f, at))
  /\ \A d \in 1..3 : Abs(SumFaces(c.faces, d)) <= Len(c.faces) + 2
  /\ (\A f \in Range(c.faces) : f.kind # "boundary") =>
       LET six == SumPyramids(r, c, c.faces, at)        \* 6 V * Sub / 4
       IN  Abs(six \div 12 - c.volume) <= c.volume \div 100 + 100
  /\ LET s == c.size IN Abs((((s * s * s) \div 100) * 419) \div 64 - c.volume) <= c.volume \div 40 + 200

SumVolumes(cs) == MapThenSumSet(LAMBDA c : c.volume, cs)

GeometryOk(r, at) ==
  /\ \A c \in Cells(r) : CellOk(r, c, at)
  /\ LET s == r.side \div Sub IN Abs(SumVolumes(Cells(r)) - s * s * s) <= Cardinality(DOMAIN at) + s

Complete(r, at) ==
  /\ Cardinality(DOMAIN at) = Len(r.pos) /\ Cardinality(Cells(r)) = Len(r.pos)
  /\ { c.pos : c \in Cells(r) } = Range(r.pos)
  /\ \A k \in DOMAIN r.ranks : \A c \in Range(r.ranks[k].cells) : c.id[1] = r.ranks[k].rank /\ c.cell

Init == l = 1 /\ run = NoRun
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ CASE Rec.ev = "start" ->
            /\ ~run.on
            /\ run' = [on |-> TRUE, n |-> Rec.ranks, side |-> Rec.side, periodic |-> Rec.periodic,
                       pos |-> Rec.pos, ranks |-> <<>>]
       [] Rec.ev = "rank" -> run.on /\ run' = [run EXCEPT !.ranks = Append(@, Rec)]
       [] Rec.ev = "done" ->
            /\ run.on /\ Rec.leftover = 0 /\ Rec.unfinished = 0
            /\ Len(run.ranks) = run.n
            /\ \E cells \in {TLCEval(Cells(run))} :
               \E at \in {TLCEval([i \in { c.id : c \in cells } |-> CHOOSE c \in cells : c.id = i])} :
                   /\ Complete(run, at)
                   /\ (IF What = "geometry" THEN GeometryOk(run, at) ELSE NeighboursOk(run, at)) = TRUE
            /\ run' = NoRun
       [] OTHER -> FALSE
Spec == Init /\ [][Next]_<<l, run>>
=============================================================================
