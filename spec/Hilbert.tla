------------------------------- MODULE Hilbert -------------------------------
(* The space-filling curve along which cells are cut up into domains. Which  *)
(* of the many Hilbert curves the code uses is not said; what matters is:    *)
(*  - every cell of a grid has its own place on the curve, none is left out, *)
(*  - neighbours on the curve are neighbours in space (share a face),        *)
(*  - the curve of a finer grid goes through the cells of the coarser grid   *)
(*    one after the other, in the order of the coarser curve.                *)
EXTENDS Integers, Sequences, FiniteSets

AbsDiff(a, b) == IF a < b THEN b - a ELSE a - b
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
FaceNeighbours(c, d) == SumTo([i \in DOMAIN c |-> AbsDiff(c[i], d[i])], Len(c)) = 1

(* A curve is the sequence of the cells it goes through. *)
Bijective(curve, dim, side) ==
  /\ Cardinality({curve[t] : t \in DOMAIN curve}) = Len(curve)
  /\ {curve[t] : t \in DOMAIN curve} = [1..dim -> 0..(side - 1)]
Continuous(curve) == \A t \in 1..(Len(curve) - 1) : FaceNeighbours(curve[t], curve[t + 1])

Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32
             [] n = 6 -> 64 [] n = 7 -> 128 [] n = 8 -> 256 [] n = 9 -> 512 [] n = 10 -> 1024
             [] n = 12 -> 4096

Parent(c) == [i \in DOMAIN c |-> c[i] \div 2]
Nested(fine, coarse, dim) ==
  \A t \in DOMAIN fine : Parent(fine[t]) = coarse[((t - 1) \div Pow2(dim)) + 1]

(***************************************************************************)
(* A curve that does all this, to see that it can be done: in each cell    *)
(* the corners are visited in the order of a Gray code, seen from the      *)
(* corner at which the curve enters, along the axis in which it leaves     *)
(* (Butz; Hamilton 2006). A cell is a bit per dimension, axis 1 first.     *)
(***************************************************************************)
Xor(a, b) == (a + b) % 2
Bits(w, dim) == [i \in 1..dim |-> ((w \div Pow2(i - 1)) % 2)]      \* lowest bit first
Gray(w, dim) == LET b == Bits(w, dim)
                IN [i \in 1..dim |-> IF i = dim THEN b[i] ELSE Xor(b[i], b[i + 1])]
TrailingOnes(w) == IF w % 2 = 0 THEN 0 ELSE IF w % 4 = 1 THEN 1 ELSE IF w % 8 = 3 THEN 2 ELSE 3
Entry(w, dim) == IF w = 0 THEN Gray(0, dim) ELSE Gray(2 * ((w - 1) \div 2), dim)
Axis(w, dim) == IF w = 0 THEN 0
                ELSE IF w % 2 = 0 THEN TrailingOnes(w - 1) % dim ELSE TrailingOnes(w) % dim
RotL(b, k, dim) == [i \in 1..dim |-> b[((i - 1 - k) % dim) + 1]]
XorB(a, b) == [i \in DOMAIN a |-> Xor(a[i], b[i])]

(* The curve of n more levels in a cell entered at corner e along axis d. *)
RECURSIVE Curve(_, _, _, _)
Curve(dim, n, e, d) ==
  IF n = 0 THEN << [i \in 1..dim |-> 0] >>
  ELSE LET part(w) ==
             LET corner == XorB(RotL(Gray(w, dim), d + 1, dim), e)
                 sub == Curve(dim, n - 1, XorB(e, RotL(Entry(w, dim), d + 1, dim)),
                              (d + Axis(w, dim) + 1) % dim)
             IN  [t \in DOMAIN sub |-> [i \in 1..dim |-> corner[i] * Pow2(n - 1) + sub[t][i]]]
           RECURSIVE join(_)
           join(w) == IF w = Pow2(dim) THEN <<>> ELSE part(w) \o join(w + 1)
       IN  join(0)
TheCurve(dim, n) == Curve(dim, n, [i \in 1..dim |-> 0], 0)

CONSTANTS MaxLevel2, MaxLevel3
VARIABLES gdim, level, line, before
vars == <<gdim, level, line, before>>
Init == gdim \in {2, 3} /\ level = 0 /\ line = TheCurve(gdim, 0) /\ before = <<>>
Refine == /\ level < (IF gdim = 2 THEN MaxLevel2 ELSE MaxLevel3)
          /\ level' = level + 1
          /\ line' = TheCurve(gdim, level + 1)
          /\ before' = line
          /\ UNCHANGED gdim
Next == Refine
Spec == Init /\ [][Next]_vars

EveryCellOnce == Bijective(line, gdim, Pow2(level))
NoJumps == Continuous(line)
FinerFollowsCoarser == level > 0 => Nested(line, before, gdim)
=============================================================================
