------------------------------ MODULE TreeTrace ------------------------------
(* Trees built by the real code, as they are when the last particle is in.    *)
EXTENDS TraceLib
CONSTANT What     \* "tree" or "box"
VARIABLES l, pos, nodes
T == INSTANCE Tree WITH D <- 3, Side <- 1, MaxDepth <- 0, PerLeaf <- 0, MaxNum <- 0

Rec == Trace[l]

AsTree(r) == LET at == { r.nodes[k].path : k \in DOMAIN r.nodes }
             IN  [x \in at |-> LET n == r.nodes[CHOOSE k \in DOMAIN r.nodes : r.nodes[k].path = x]
                               IN  [leaf |-> n.leaf, held |-> n.held, work |-> n.work]]

Boxes(r) == \A k \in DOMAIN r.nodes : LET n == r.nodes[k] IN \A d \in 1..3 :
  /\ n.min[d] = T!Corner(n.path, r.side, d)
  /\ n.max[d] = n.min[d] + T!Size(n.path, r.side)

OnceEach(s, n) == Len(s) = n /\ Range(s) = 1..n

TreeOk(r) == LET t == AsTree(r) IN
  /\ Cardinality(DOMAIN t) = Len(r.nodes)
  /\ T!Complete(t)
  /\ T!Placed(t, r.pos, r.side)
  /\ T!Counted(t)
  /\ T!Bounded(t, r.depth, r.perleaf)
  /\ Boxes(r)
  /\ OnceEach(r.listed, Len(r.pos)) /\ OnceEach(r.visited, Len(r.pos))
  /\ \A k \in DOMAIN r.queries : LET q == r.queries[k] IN
       /\ Range(q.found) = T!Ball(r.pos, q.centre, q.radius, r.side)
       /\ Len(q.found) = Cardinality(Range(q.found))

(* The difference of two positions in the box is that of the closest images;  *)
(* wrapping moves a position by whole box lengths into the box.               *)
BoxOk(r) == \A k \in DOMAIN r.pairs : LET p == r.pairs[k] IN \A d \in 1..3 :
  /\ (p.diff[d] - (p.a[d] - p.b[d])) % r.side = 0
  /\ 2 * Abs(p.diff[d]) <= r.side
  /\ (p.wrapped[d] - p.far[d]) % r.side = 0
  /\ 0 <= p.wrapped[d] /\ p.wrapped[d] <= r.side

Init == l = 1 /\ pos = <<>> /\ nodes = <<>>
Next ==
  /\ l <= Len(Trace)
  /\ Rec.ev = "tree"
  /\ IF What = "tree" THEN TreeOk(Rec) ELSE BoxOk(Rec)
  /\ l' = l + 1
  /\ UNCHANGED <<pos, nodes>>
Spec == Init /\ [][Next]_<<l, pos, nodes>>
=============================================================================
