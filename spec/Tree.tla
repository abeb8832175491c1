-------------------------------- MODULE Tree --------------------------------
(* The tree of particles. A node is named by the path to it: the sequence of *)
(* the quadrants (1 to 2^D) taken from the root. `nodes` maps the paths of    *)
(* the nodes there are to what is known of them: whether the node is a leaf, *)
(* the particles a leaf holds, in order, and the work in the node.            *)
(* A leaf that is full is divided before the next particle goes in.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS D,         \* number of dimensions
          Side,      \* side length of the box, a power of two
          MaxDepth,  \* depth from which on leaves are not divided
          PerLeaf,   \* particles beyond which a leaf is divided
          MaxNum     \* particles to insert

Quadrants == 1..(2 ^ D)
Dims == 1..D

VARIABLES pos,       \* positions of the particles inserted so far
          nodes

vars == <<pos, nodes>>

Bit(q, d) == ((q - 1) \div (2 ^ (d - 1))) % 2
Size(path, side) == side \div (2 ^ Len(path))

RECURSIVE Corner(_, _, _)
Corner(path, side, d) ==
  IF path = <<>> THEN 0
  ELSE LET up == SubSeq(path, 1, Len(path) - 1)
       IN  Corner(up, side, d) + Bit(path[Len(path)], d) * Size(path, side)

(* Positions on the plane between quadrants belong to the upper one. *)
Quadrant(path, p, side) ==
  LET h == Size(path, side) \div 2
      up(d) == IF p[d] < Corner(path, side, d) + h THEN 0 ELSE 1
      Sum[d \in 0..D] == IF d = 0 THEN 0 ELSE Sum[d - 1] + up(d) * 2 ^ (d - 1)
  IN  1 + Sum[D]

Empty == [leaf |-> TRUE, held |-> <<>>, work |-> 0]

(* Insert particle i at the node `path` of the tree t. *)
RECURSIVE Put(_, _, _, _), PutAll(_, _, _, _)
Put(t, path, i, where) ==
  LET n == t[path]
      counted == [t EXCEPT ![path].work = n.work + 1]
  IN  IF ~n.leaf
      THEN Put(counted, path \o <<Quadrant(path, where[i], Side)>>, i, where)
      ELSE IF Len(path) < MaxDepth /\ Len(n.held) > PerLeaf
      THEN LET children == { path \o <<q>> : q \in Quadrants }
               split == [x \in DOMAIN t \cup children |->
                           IF x = path THEN [leaf |-> FALSE, held |-> <<>>, work |-> n.work + 1]
                           ELSE IF x \in children THEN Empty ELSE t[x]]
               moved == PutAll(split, path, n.held, where)
           IN  Put(moved, path \o <<Quadrant(path, where[i], Side)>>, i, where)
      ELSE [counted EXCEPT ![path].held = Append(n.held, i)]
PutAll(t, path, is, where) ==
  IF is = <<>> THEN t
  ELSE PutAll(Put(t, path \o <<Quadrant(path, where[Head(is)], Side)>>, Head(is), where), path,
              Tail(is), where)

Init == pos = <<>> /\ nodes = (<<>> :> Empty)

Insert(p) ==
  /\ Len(pos) < MaxNum
  /\ pos' = Append(pos, p)
  /\ nodes' = Put(nodes, <<>>, Len(pos) + 1, pos')

Next == \E p \in [Dims -> 0..Side] : Insert(p)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Range(s) == { s[k] : k \in DOMAIN s }
Leaves(t) == { x \in DOMAIN t : t[x].leaf }
Within(path, p, side) == \A d \in Dims : Corner(path, side, d) <= p[d]
                                         /\ p[d] <= Corner(path, side, d) + Size(path, side)

(* Nodes have all children or none. *)
Complete(t) ==
  /\ <<>> \in DOMAIN t
  /\ \A x \in DOMAIN t :
       /\ x # <<>> => LET up == SubSeq(x, 1, Len(x) - 1) IN up \in DOMAIN t /\ ~t[up].leaf
       /\ ~t[x].leaf => t[x].held = <<>> /\ \A q \in Quadrants : x \o <<q>> \in DOMAIN t

(* Every particle is in one leaf, whose region it is in. *)
Placed(t, where, side) ==
  /\ \A i \in DOMAIN where : Cardinality({ x \in Leaves(t) : i \in Range(t[x].held) }) = 1
  /\ \A x \in Leaves(t) : /\ Cardinality(Range(t[x].held)) = Len(t[x].held)
                          /\ \A i \in Range(t[x].held) : i \in DOMAIN where /\ Within(x, where[i], side)

(* The work in a node is the number of particles in it. *)
Below(t, x) == { y \in Leaves(t) : Len(y) >= Len(x) /\ SubSeq(y, 1, Len(x)) = x }
RECURSIVE SumHeld(_, _)
SumHeld(t, S) == IF S = {} THEN 0 ELSE LET y == CHOOSE y \in S : TRUE
                                       IN  Len(t[y].held) + SumHeld(t, S \ {y})
Counted(t) == \A x \in DOMAIN t : t[x].work = SumHeld(t, Below(t, x))

(* Leaves that can still be divided are not overfull, and no node beyond the  *)
(* largest depth exists.                                                     *)
Bounded(t, depth, most) == \A x \in DOMAIN t :
  /\ Len(x) <= depth
  /\ (t[x].leaf /\ Len(x) < depth) => Len(t[x].held) <= most + 1

(* A search visits the nodes whose box, taken twice as large, is not further *)
(* away than the radius in any dimension, the distance being the shortest of *)
(* all periodic images, and takes what is closer than the radius.            *)
Abs(x) == IF x < 0 THEN -x ELSE x
Gap(a, b, side) == LET d == Abs(a - b) IN IF 2 * d > side THEN side - d ELSE d
RECURSIVE Dist2(_, _, _, _)
Dist2(a, b, side, d) == IF d = 0 THEN 0
                        ELSE Gap(a[d], b[d], side) * Gap(a[d], b[d], side) + Dist2(a, b, side, d - 1)
Ball(where, c, r, side) == { i \in DOMAIN where : Dist2(where[i], c, side, D) < r * r }

(* in halves of the unit, since centres of nodes are between grid points *)
Visits(x, c, r) == \A d \in Dims :
  Gap(2 * Corner(x, Side, d) + Size(x, Side), 2 * c[d], 2 * Side) <= 2 * (Size(x, Side) + r)
RECURSIVE Search(_, _, _)
Search(x, c, r) ==
  IF ~Visits(x, c, r) THEN {}
  ELSE IF nodes[x].leaf THEN { i \in Range(nodes[x].held) : Dist2(pos[i], c, Side, D) < r * r }
  ELSE UNION { Search(x \o <<q>>, c, r) : q \in Quadrants }

WellFormed == Complete(nodes) /\ Placed(nodes, pos, Side) /\ Counted(nodes)
              /\ Bounded(nodes, MaxDepth, PerLeaf)

SearchExact == \A c \in [Dims -> 0..Side] : \A r \in 0..Side :
  Search(<<>>, c, r) = Ball(pos, c, r, Side)
=============================================================================
