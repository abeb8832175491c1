------------------------------ MODULE Geometry ------------------------------
(* Exact predicates for points with integer coordinates, in two and three    *)
(* dimensions. TLC's integers have 32 bits, the in-sphere determinant does   *)
(* not fit: numbers are pairs <<h, l>> meaning h * 2^20 + l where needed.    *)
EXTENDS Integers, Sequences

K == 1024
Wide(a, b) == LET a1 == a \div K  a0 == a % K  b1 == b \div K  b0 == b % K
                  mid == a1 * b0 + a0 * b1
              IN  <<a1 * b1 + mid \div K, (mid % K) * K + a0 * b0>>
Plus(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Minus(x, y) == <<x[1] - y[1], x[2] - y[2]>>
SignWide(x) == LET h == x[1] + x[2] \div (K * K)  l == x[2] % (K * K)
               IN  IF h < 0 THEN -1 ELSE IF h > 0 \/ l > 0 THEN 1 ELSE 0
SignOf(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

Diff(p, q) == [d \in DOMAIN p |-> p[d] - q[d]]
Square(v) == IF Len(v) = 2 THEN v[1] * v[1] + v[2] * v[2] ELSE v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
Det2(u, v) == u[1] * v[2] - u[2] * v[1]
Det3(u, v, w) == u[1] * (v[2] * w[3] - v[3] * w[2]) - u[2] * (v[1] * w[3] - v[3] * w[1])
                 + u[3] * (v[1] * w[2] - v[2] * w[1])

(* Twice the area / six times the volume of a simplex, with its sign. *)
Content(s) == IF Len(s) = 3 THEN Det2(Diff(s[2], s[1]), Diff(s[3], s[1]))
              ELSE Det3(Diff(s[2], s[1]), Diff(s[3], s[1]), Diff(s[4], s[1]))

(* 1 if q is inside the circumscribed circle or sphere of the simplex s,     *)
(* -1 if it is outside, 0 if it is on it.                                    *)
InSphere(s, q) ==
  IF Len(s) = 3
  THEN LET a == Diff(s[1], q)  b == Diff(s[2], q)  c == Diff(s[3], q)
           det == Plus(Minus(Wide(Det2(b, c), Square(a)), Wide(Det2(a, c), Square(b))), Wide(Det2(a, b), Square(c)))
       IN  SignWide(det) * SignOf(Content(s))
  ELSE LET a == Diff(s[1], q)  b == Diff(s[2], q)  c == Diff(s[3], q)  d == Diff(s[4], q)
           det == Minus(Plus(Minus(Wide(Det3(b, c, d), Square(a)), Wide(Det3(a, c, d), Square(b))),
                             Wide(Det3(a, b, d), Square(c))),
                        Wide(Det3(a, b, c), Square(d)))
       IN  SignWide(det) * SignOf(Content(s))
=============================================================================
