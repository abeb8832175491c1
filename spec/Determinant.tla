----------------------------- MODULE Determinant -----------------------------
(* The predicates of the triangulation are signs of determinants. They must  *)
(* be the exact signs: a sign that is rounding noise makes the triangulation *)
(* inconsistent. The code computes in floats and falls back to rational      *)
(* numbers when the result is in doubt; here everything is an integer.       *)
EXTENDS Integers, Sequences, FiniteSets

Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

(* Laplace expansion along the first row. *)
Minor(m, j) ==
  [r \in 1..(Len(m) - 1) |-> [c \in 1..(Len(m) - 1) |-> m[r + 1][IF c < j THEN c ELSE c + 1]]]
RECURSIVE Det(_)
Det(m) ==
  IF Len(m) = 1 THEN m[1][1]
  ELSE LET RECURSIVE sum(_)
           sum(j) == IF j > Len(m) THEN 0
                     ELSE (IF m[1][j] = 0 THEN 0
                           ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * m[1][j] * Det(Minor(m, j)))
                          + sum(j + 1)
       IN  sum(1)

RECURSIVE SgnProduct(_)
SgnProduct(s) == IF s = <<>> THEN 1 ELSE Sgn(Head(s)) * SgnProduct(Tail(s))

(* What an operation on rows or columns does to the sign. *)
Effect(op) == IF op \in {"swaprow", "swapcol"} THEN -1 ELSE 1

(***************************************************************************)
(* Matrices made from diagonal ones. The sign that is tracked has to be    *)
(* the sign of the determinant all the time.                               *)
(***************************************************************************)
CONSTANTS Size, Entries, Factors, MaxOps
VARIABLES m, sign, ops
vars == <<m, sign, ops>>

Init == \E d \in [1..Size -> Entries] :
          /\ m = [i \in 1..Size |-> [j \in 1..Size |-> IF i = j THEN d[i] ELSE 0]]
          /\ sign = SgnProduct(d)
          /\ ops = 0

SwapRow(i, j) == m' = [m EXCEPT ![i] = m[j], ![j] = m[i]] /\ sign' = sign * Effect("swaprow")
SwapCol(i, j) == m' = [r \in 1..Size |-> [m[r] EXCEPT ![i] = m[r][j], ![j] = m[r][i]]]
                 /\ sign' = sign * Effect("swapcol")
AddRow(i, j, k) == m' = [m EXCEPT ![i] = [c \in 1..Size |-> m[i][c] + k * m[j][c]]]
                   /\ sign' = sign * Effect("addrow")
AddCol(i, j, k) == m' = [r \in 1..Size |-> [m[r] EXCEPT ![i] = m[r][i] + k * m[r][j]]]
                   /\ sign' = sign * Effect("addcol")

Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \E i, j \in 1..Size : i # j /\ (SwapRow(i, j) \/ SwapCol(i, j) \/
             \E k \in Factors : AddRow(i, j, k) \/ AddCol(i, j, k))
Spec == Init /\ [][Next]_vars

SignIsExact == sign = Sgn(Det(m))
SignChangesOnlyBySwaps == [][sign' \in {sign, -sign}]_vars
=============================================================================
