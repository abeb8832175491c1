------------------------- MODULE LinearAlgebraTrace -------------------------
EXTENDS TraceLib
VARIABLES l
LA == INSTANCE LinearAlgebra WITH N <- 1, Entries <- {}, a <- <<>>, b <- <<>>,
                                  a0 <- <<>>, b0 <- <<>>, col <- 1

(* Residuals are in units of a millionth. *)
Small(res, n) == Len(res) = n /\ \A k \in DOMAIN res : Abs(res[k]) <= 1

System(r) ==
  LET regular == LA!Det(r.m) # 0
  IN  /\ regular => /\ LA!IsSolution(r.m, r.b, r.num, r.den)
                    /\ Small(r.res, r.n)
      \* the quick solver may say that it cannot tell; what it returns has to be right
      /\ r.n = 3 => \/ r.quick = "err"
                    \/ regular /\ r.quick = "ok" /\ Small(r.qres, r.n)

(* A system that is nearly singular: an answer of the quick solver is right *)
(* to 1e-3 at least.                                                        *)
Near(r) == r.quick = "err" \/ (r.quick = "ok" /\ r.regular /\ r.err <= 1000)

Vectors(r) ==
  /\ \A k \in 1..2 : r.r.coords[k] = r.a /\ r.r.coords2[k] = SubSeq(r.a, 1, 2)
  /\ r.r.cross = LA!Cross(r.a, r.b)
  /\ r.r.fcross = LA!Cross(r.a, r.b)
  /\ r.r.dot = LA!Dot(r.a, r.b)
  /\ r.r.add = LA!Plus(r.a, r.b)
  /\ r.r.sub = LA!Minus(r.a, r.b)
  /\ r.r.sub2 = SubSeq(LA!Minus(r.a, r.b), 1, 2)

(* The float vectors of one, two and three dimensions. dist is the distance *)
(* times a thousand, rounded down.                                          *)
Floats(r) ==
  LET d == LA!Minus(r.a, r.b)
      d2 == LA!Dot(d, d)
  IN  /\ r.dot = LA!Dot(r.a, r.b)
      /\ r.min = LA!MinV(r.a, r.b)
      /\ r.max = LA!MaxV(r.a, r.b)
      /\ r.maxel = LA!MaxElement(r.a)
      /\ r.dist2 = d2
      \* (dist - 1)^2 <= d2 * 10^6 <= (dist + 1)^2, in steps TLC can hold
      /\ r.dist \div 1000 <= 60 /\ Abs((r.dist * r.dist) \div 1000 - d2 * 1000) <= 200
      /\ r.unit2 = IF r.zero THEN 0 ELSE 1000000

Allowed(r) ==
  /\ r.ok
  /\ CASE r.kind = "system" -> System(r)
       [] r.kind = "near" -> Near(r)
       [] r.kind = "vec" -> Vectors(r)
       [] r.kind = "float" -> Floats(r)

Init == l = 1
Next == l <= Len(Trace) /\ Allowed(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
