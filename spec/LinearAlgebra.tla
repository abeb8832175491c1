---------------------------- MODULE LinearAlgebra ----------------------------
(* Linear systems and vectors as the triangulation uses them.                *)
EXTENDS Integers, Sequences, FiniteSets

D == INSTANCE Determinant WITH Size <- 1, Entries <- {}, Factors <- {}, MaxOps <- 0,
                               m <- <<>>, sign <- 0, ops <- 0
Det(a) == D!Det(a)

(* Cramer's rule, without division: x[j] = num[j] / den[j]. *)
Replaced(a, b, j) == [r \in DOMAIN a |-> [c \in DOMAIN a |-> IF c = j THEN b[r] ELSE a[r][c]]]
IsSolution(a, b, num, den) ==
  LET d == Det(a)
  IN  /\ Len(num) = Len(a) /\ Len(den) = Len(a)
      /\ \A j \in DOMAIN a : den[j] # 0 /\ num[j] * d = den[j] * Det(Replaced(a, b, j))

Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
RECURSIVE DotN(_, _, _)
DotN(a, b, n) == IF n = 0 THEN 0 ELSE a[n] * b[n] + DotN(a, b, n - 1)
Dot(a, b) == DotN(a, b, Len(a))
Plus(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Minus(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
MinV(a, b) == [i \in DOMAIN a |-> IF a[i] < b[i] THEN a[i] ELSE b[i]]
MaxV(a, b) == [i \in DOMAIN a |-> IF a[i] > b[i] THEN a[i] ELSE b[i]]
MaxElement(a) == CHOOSE x \in { a[i] : i \in DOMAIN a } : \A i \in DOMAIN a : a[i] <= x

(***************************************************************************)
(* Elimination with row operations keeps the set of solutions: the design  *)
(* of the solvers. Fractions are avoided by multiplying rows.              *)
(***************************************************************************)
CONSTANTS N, Entries
VARIABLES a, b, a0, b0, col
vars == <<a, b, a0, b0, col>>

Init == /\ a \in [1..N -> [1..N -> Entries]] /\ b \in [1..N -> Entries]
        /\ Det(a) # 0
        /\ a0 = a /\ b0 = b /\ col = 1

AbsV(x) == IF x < 0 THEN -x ELSE x
(* The largest entry of the column becomes the pivot. *)
Pivot == CHOOSE r \in col..N : \A s \in col..N : AbsV(a[s][col]) <= AbsV(a[r][col])
Swapped(v, r, s) == [k \in DOMAIN v |-> IF k = r THEN v[s] ELSE IF k = s THEN v[r] ELSE v[k]]
Eliminate ==
  /\ col <= N
  /\ LET p == Pivot
         u == Swapped(a, col, p)
         w == Swapped(b, col, p)
     IN  /\ a' = [r \in 1..N |-> IF r <= col THEN u[r]
                    ELSE [c \in 1..N |-> u[r][c] * u[col][col] - u[col][c] * u[r][col]]]
         /\ b' = [r \in 1..N |-> IF r <= col THEN w[r]
                    ELSE w[r] * u[col][col] - w[col] * u[r][col]]
  /\ col' = col + 1
  /\ UNCHANGED <<a0, b0>>
Next == Eliminate
Spec == Init /\ [][Next]_vars

(* A regular matrix always has a pivot, and stays regular. *)
Regular == Det(a) # 0
PivotThere == col <= N => a[Pivot][col] # 0
Triangular == \A r \in 1..N : \A c \in 1..N : (c < r /\ c < col) => a[r][c] = 0
(* Same solution: the Cramer quotients agree. *)
SameSolution ==
  \A j \in 1..N : Det(Replaced(a, b, j)) * Det(a0) = Det(Replaced(a0, b0, j)) * Det(a)
=============================================================================
