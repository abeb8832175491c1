---------------------------- MODULE DelaunayTrace ----------------------------
(* Triangulations made by the real code, in two and three dimensions.        *)
EXTENDS TraceLib, Geometry
VARIABLES l, run      \* run: the points to be inserted and the dimension

Rec == Trace[l]
NoRun == [dim |-> 0]

Corner(t, k) == LET ps == t.tetras[k].points IN [j \in DOMAIN ps |-> t.pos[ps[j]]]

(* Points of the run by number, in the order in which they were given. *)
PointsOk(t, r, count) ==
  /\ Len(t.pos) = r.dim + 1 + count
  /\ Len(t.named) = count /\ Range(t.named) = Range(t.inner) /\ Cardinality(Range(t.inner)) = count
  /\ \A n \in 1..count : t.pos[t.named[n]] = r.points[n]

(* Neighbours know each other, across the face opposite to the same corner;  *)
(* a face without neighbour is one of the outer simplex. As no two faces     *)
(* have the same corners, no face has more than two sides.                   *)
FacesOk(t, dim, inner) ==
  /\ \A k \in DOMAIN t.tetras : LET x == t.tetras[k] IN
       /\ Len(x.points) = dim + 1 /\ Cardinality(Range(x.points)) = dim + 1
       /\ Len(x.sides) = dim + 1
       /\ \A j \in 1..(dim + 1) : LET s == x.sides[j]  ps == Range(x.points) \ {x.points[j]} IN
            /\ s.face \in DOMAIN t.faces /\ Range(t.faces[s.face]) = ps
            /\ IF s.none THEN ps \cap inner = {}
               ELSE /\ s.tetra \in DOMAIN t.tetras /\ s.tetra # k
                    /\ {s.point} = Range(t.tetras[s.tetra].points) \ ps
                    /\ \E i \in 1..(dim + 1) : LET o == t.tetras[s.tetra].sides[i] IN
                         ~o.none /\ o.face = s.face /\ o.tetra = k
  /\ Cardinality({ Range(f) : f \in Range(t.faces) }) = Len(t.faces)
  /\ DOMAIN t.faces = { s.face : s \in UNION { Range(t.tetras[k].sides) : k \in DOMAIN t.tetras } }
  /\ Cardinality({ <<k, j>> \in (DOMAIN t.tetras) \X (1..(dim + 1)) : t.tetras[k].sides[j].none }) = dim + 1

RECURSIVE Contents(_, _)
Contents(t, k) == IF k = 0 THEN 0 ELSE Content(Corner(t, k)) + Contents(t, k - 1)

(* The simplices fill the outer one and do not overlap. *)
FillOk(t, dim, inner) == LET outer == DOMAIN t.pos \ inner IN
  /\ \A k \in DOMAIN t.tetras :
       (t.outerexact \/ Range(t.tetras[k].points) \subseteq inner) => Content(Corner(t, k)) > 0
  /\ t.outerexact =>
       LET o == CHOOSE s \in [1..(dim + 1) -> outer] : Range(s) = outer
       IN  Abs(Content([j \in DOMAIN o |-> t.pos[o[j]]])) = Contents(t, Len(t.tetras))

(* For many points only the neighbours of each simplex are looked at, which  *)
(* is enough.                                                                *)
DelaunayOk(t, inner) == \A k \in DOMAIN t.tetras : LET x == t.tetras[k]  ps == Range(x.points) IN
  (t.outerexact \/ ps \subseteq inner) =>
    LET c == TLCEval(Corner(t, k))
        near == { s.point : s \in { y \in Range(x.sides) : ~y.none } }
        all == (IF Len(t.pos) < 16 THEN DOMAIN t.pos ELSE near) \ ps
    IN  \A q \in (IF t.outerexact THEN all ELSE all \cap inner) : InSphere(c, t.pos[q]) < 0

Init == l = 1 /\ run = NoRun
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ CASE Rec.ev = "start" -> run.dim = 0 /\ run' = [dim |-> Rec.dim, points |-> Rec.points, count |-> 0]
       [] Rec.ev = "triangulation" ->
            /\ run.dim > 0 /\ Rec.count > run.count
            /\ PointsOk(Rec.t, run, Rec.count)
            /\ FacesOk(Rec.t, run.dim, TLCEval(Range(Rec.t.inner)))
            /\ FillOk(Rec.t, run.dim, TLCEval(Range(Rec.t.inner)))
            /\ DelaunayOk(Rec.t, TLCEval(Range(Rec.t.inner)))
            /\ run' = [run EXCEPT !.count = Rec.count]
       [] Rec.ev = "end" -> run.dim > 0 /\ run.count = Len(run.points) /\ run' = NoRun
       [] OTHER -> FALSE
Spec == Init /\ [][Next]_<<l, run>>
=============================================================================
