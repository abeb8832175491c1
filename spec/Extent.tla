------------------------------- MODULE Extent -------------------------------
(* The box around a set of points. Coordinates are integers.                 *)
EXTENDS Integers, Sequences, FiniteSets

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Coords(pts, i) == { pts[k][i] : k \in DOMAIN pts }

(* The box is <<min, max>>; the smallest that contains all points. *)
Contains(box, p) == \A i \in DOMAIN p : box[1][i] <= p[i] /\ p[i] <= box[2][i]
Smallest(box, pts) ==
  /\ \A k \in DOMAIN pts : Contains(box, pts[k])
  /\ \A i \in DOMAIN box[1] : box[1][i] \in Coords(pts, i) /\ box[2][i] \in Coords(pts, i)

TwiceCenter(box) == [i \in DOMAIN box[1] |-> box[1][i] + box[2][i]]
Sides(box) == [i \in DOMAIN box[1] |-> box[2][i] - box[1][i]]
LongestSide(box) == MaxOf({ Sides(box)[i] : i \in DOMAIN box[1] })
(* Three boxes in each direction: room for the periodic images. *)
WithImages(box) ==
  << [i \in DOMAIN box[1] |-> box[1][i] - Sides(box)[i]],
     [i \in DOMAIN box[1] |-> box[2][i] + Sides(box)[i]] >>

CONSTANTS Dim, Coord, MaxPoints
VARIABLES pts, box     \* box is <<>> as long as there are no points
vars == <<pts, box>>
Init == pts = <<>> /\ box = <<>>
Add == /\ Len(pts) < MaxPoints
       /\ \E p \in [1..Dim -> Coord] :
            /\ pts' = Append(pts, p)
            /\ box' = IF box = <<>> THEN <<p, p>>
                      ELSE << [i \in 1..Dim |-> IF p[i] < box[1][i] THEN p[i] ELSE box[1][i]],
                              [i \in 1..Dim |-> IF p[i] > box[2][i] THEN p[i] ELSE box[2][i]] >>
Next == Add
Spec == Init /\ [][Next]_vars

NoneIfEmpty == (box = <<>>) <=> (pts = <<>>)
Tight == box # <<>> => Smallest(box, pts)
ImagesFit ==
  box # <<>> =>
    /\ \A k \in DOMAIN pts : \A s \in [1..Dim -> {-1, 0, 1}] :
         Contains(WithImages(box), [i \in 1..Dim |-> pts[k][i] + s[i] * Sides(box)[i]])
    /\ TwiceCenter(WithImages(box)) = TwiceCenter(box)
Grows == [][box # <<>> => \A i \in 1..Dim : box'[1][i] <= box[1][i] /\ box'[2][i] >= box[2][i]]_vars
=============================================================================
