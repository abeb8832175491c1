-------------------------- MODULE DeterminantTrace --------------------------
EXTENDS TraceLib
VARIABLES l
D == INSTANCE Determinant WITH Size <- 1, Entries <- {}, Factors <- {}, MaxOps <- 0,
                               m <- <<>>, sign <- 0, ops <- 0

RECURSIVE Effects(_)
Effects(ops) == IF ops = <<>> THEN 1 ELSE D!Effect(Head(ops)[1]) * Effects(Tail(ops))

Allowed(r) ==
  CASE r.kind = "small"  -> r.ok /\ r.sign = D!Sgn(D!Det(r.m))
    [] r.kind = "built"  -> r.ok /\ r.sign = D!SgnProduct(r.diag) * Effects(r.ops)
    \* the exact sign of a matrix of floats, which TLC cannot hold, comes with the record
    [] r.kind = "lifted" -> r.ok /\ r.sign = r.exact
    [] r.kind = "mul"    -> r.ok /\ r.sign = r.a * r.b /\ r.pos = (r.a = 1) /\ r.neg = (r.a = -1)
    [] r.kind = "of"     -> /\ r.of = D!Sgn(r.v)
                            /\ r.big = D!Sgn(r.v)
                            /\ r.close = r.tiny
                            /\ r.tried = IF r.tiny THEN 7 ELSE D!Sgn(r.v)

Init == l = 1
Next == l <= Len(Trace) /\ Allowed(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
