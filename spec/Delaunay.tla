------------------------------ MODULE Delaunay ------------------------------
(* Incremental construction of a Delaunay triangulation, in two dimensions:   *)
(* all points are inside of one large triangle, a new point splits the        *)
(* triangle it is in, and edges are flipped until none is left whose opposite *)
(* point is inside of the circle. Points are in general position (the real    *)
(* code stops with a panic when they are not).                                *)
EXTENDS Geometry, FiniteSets

CONSTANTS Side,      \* points have coordinates 0..Side
          MaxPoints  \* so many are inserted
VARIABLES pos,       \* the points, the three outer ones first
          tri,       \* the triangles: sets of three points
          new,       \* the point that is being inserted, 0 for none
          check      \* its triangles that have to be checked
vars == <<pos, tri, new, check>>

Outer == << <<-Side, -Side>>, <<3 * Side, 0>>, <<0, 3 * Side>> >>
Simplex(p, t) == LET a == CHOOSE x \in t : \A y \in t : x <= y
                     c == CHOOSE x \in t : \A y \in t : x >= y
                     b == CHOOSE x \in t \ {a, c} : TRUE
                 IN  <<p[a], p[b], p[c]>>
Area(p, t) == LET x == Content(Simplex(p, t)) IN IF x < 0 THEN -x ELSE x

Inside(p, t, q) == LET s == Simplex(p, t) IN
  \A k \in 1..3 : SignOf(Content([s EXCEPT ![k] = q])) = SignOf(Content(s))

General(p, q) ==
  /\ \A a, b \in DOMAIN p : a < b => Content(<<p[a], p[b], q>>) # 0
  /\ \A a, b, c \in DOMAIN p : a < b /\ b < c => InSphere(<<p[a], p[b], p[c]>>, q) # 0

Init == pos = Outer /\ tri = {{1, 2, 3}} /\ new = 0 /\ check = {}

(* The real code inserts in the order of the Hilbert keys, and haloes later   *)
(* in any order.                                                              *)
Insert(q) ==
  /\ new = 0 /\ Len(pos) < MaxPoints + 3
  /\ General(pos, q)
  /\ \E t \in tri : Inside(pos, t, q) /\
       LET n == Len(pos) + 1
           added == { (t \ {v}) \cup {n} : v \in t }
       IN  /\ tri' = (tri \ {t}) \cup added
           /\ check' = added
           /\ new' = n
  /\ pos' = Append(pos, q)

(* One check: of the edge opposite to the new point, in any order. *)
Check(t) ==
  /\ t \in check
  /\ LET edge == t \ {new}
         others == { u \in tri : edge \subseteq u /\ u # t }
     IN  IF others # {} /\ \E u \in others : InSphere(Simplex(pos, t), pos[CHOOSE v \in u \ edge : TRUE]) = 1
         THEN LET u == CHOOSE u \in others : TRUE
                  q == CHOOSE v \in u \ edge : TRUE
                  added == { {new, q, v} : v \in edge }
              IN  /\ tri' = (tri \ {t, u}) \cup added
                  /\ check' = (check \ {t}) \cup added
         ELSE tri' = tri /\ check' = check \ {t}
  /\ UNCHANGED <<pos, new>>

Done == new # 0 /\ check = {} /\ new' = 0 /\ UNCHANGED <<pos, tri, check>>

Next == \/ \E x, y \in 0..Side : Insert(<<x, y>>)
        \/ \E t \in check : Check(t)
        \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Done \/ \E t \in check : Check(t))

---------------------------------------------------------------------------
RECURSIVE SumArea(_, _)
SumArea(p, ts) == IF ts = {} THEN 0 ELSE LET t == CHOOSE x \in ts : TRUE IN Area(p, t) + SumArea(p, ts \ {t})

(* The triangles fill the outer one without overlap, at any moment. *)
IsTriangulation ==
  /\ \A t \in tri : Area(pos, t) > 0
  /\ SumArea(pos, tri) = Area(pos, {1, 2, 3})
  /\ \A a, b \in DOMAIN pos : a < b => Cardinality({ t \in tri : {a, b} \subseteq t })
                                        <= (IF b <= 3 THEN 1 ELSE 2)
  /\ UNION tri = DOMAIN pos

(* All triangles that changed have the new point as a corner. *)
OnlyAroundTheNewPoint == \A t \in check : new \in t

IsDelaunay(p, ts) == \A t \in ts : \A q \in DOMAIN p \ t : InSphere(Simplex(p, t), p[q]) < 0
DelaunayWhenDone == check = {} => IsDelaunay(pos, tri)

(* In general position there is only one, so the order does not matter. *)
Terminates == (new # 0) ~> (new = 0)
=============================================================================
