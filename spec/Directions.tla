------------------------------ MODULE Directions ------------------------------
(* The directions along which radiation is transported, and the rotations    *)
(* that are applied to them so that no direction is preferred. Numbers are   *)
(* fixed point, 10000 is one.                                                *)
EXTENDS Integers, Sequences, FiniteSets
One == 10000
AbsI(x) == IF x < 0 THEN -x ELSE x
Near(x, y, tol) == AbsI(x - y) <= tol

Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
RECURSIVE Sum(_, _, _)
Sum(dirs, i, k) == IF k = 0 THEN 0 ELSE dirs[k][i] + Sum(dirs, i, k - 1)
RECURSIVE Moment(_, _, _, _)
Moment(dirs, i, j, k) == IF k = 0 THEN 0
                         ELSE ((dirs[k][i] * dirs[k][j]) \div 1000) + Moment(dirs, i, j, k - 1)

(* A set of directions covers the sphere evenly: unit vectors, which cancel *)
(* each other, spread alike in all coordinates, no two close to each other. *)
Even(dirs, n) ==
  /\ Len(dirs) = n
  /\ \A k \in 1..n : Len(dirs[k]) = 3 /\ Near(Dot3(dirs[k], dirs[k]), One * One, 100000)
  /\ \A i \in 1..3 : AbsI(Sum(dirs, i, n)) <= n
  /\ \A i, j \in 1..3 : Near(Moment(dirs, i, j, n), IF i = j THEN (n * 100000) \div 3 ELSE 0, n * 700)
  /\ \A k, q \in 1..n : k < q => Dot3(dirs[k], dirs[q]) <= One * One - (430000000 \div n)

(* A rotation: rows and columns orthonormal, right-handed. *)
Orthonormal(m) ==
  \A i, j \in 1..3 : Near(Dot3(m[i], m[j]), IF i = j THEN One * One ELSE 0, 40000)
Transposed(m) == [i \in 1..3 |-> [j \in 1..3 |-> m[j][i]]]
Third(m) == [i \in 1..3 |-> [j \in 1..3 |-> m[i][j] \div 100]]
Det3(m) == m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2])
         - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
         + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
IsRotation(m) ==
  Orthonormal(m) /\ Orthonormal(Transposed(m)) /\ Near(Det3(Third(m)), 1000000, 60000)
Applied(m, v) == [i \in 1..3 |-> Dot3(m[i], v) \div One]

(***************************************************************************)
(* The design, on rotations that integers can express: quarter turns about *)
(* the axes, one after the other. They stay rotations.                     *)
(***************************************************************************)
Turn(axis) ==
  CASE axis = 1 -> << <<One, 0, 0>>, <<0, 0, -One>>, <<0, One, 0>> >>
    [] axis = 2 -> << <<0, 0, One>>, <<0, One, 0>>, <<-One, 0, 0>> >>
    [] axis = 3 -> << <<0, -One, 0>>, <<One, 0, 0>>, <<0, 0, One>> >>
Product(p, q) == [i \in 1..3 |-> [j \in 1..3 |-> Dot3(p[i], Transposed(q)[j]) \div One]]
Axes == { <<One, 0, 0>>, <<-One, 0, 0>>, <<0, One, 0>>, <<0, -One, 0>>, <<0, 0, One>>, <<0, 0, -One>> }
VARIABLES rot
Init == rot = << <<One, 0, 0>>, <<0, One, 0>>, <<0, 0, One>> >>
Next == \E x \in 1..3 : rot' = Product(Turn(x), rot)
Spec == Init /\ [][Next]_rot
StaysRotation == IsRotation(rot)
(* The set of directions is only permuted: radiation comes from everywhere. *)
KeepsSet == { Applied(rot, d) : d \in Axes } = Axes
=============================================================================
