----------------------------- MODULE DataByRank -----------------------------
(* The container in which everything that is kept per rank lives: a partial  *)
(* map from ranks to values, gone through in the order of the ranks.         *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES m,     \* the map
          res    \* what the last operation returned

vars == <<m, res>>

Value(x) == <<x>>      \* an optional value that is there
Nothing == <<>>

Ranks == DOMAIN m
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})
Pairs(f) == LET s == Sorted(DOMAIN f) IN [i \in DOMAIN s |-> <<s[i], f[s[i]]>>]

RECURSIVE SumLen(_, _)
SumLen(f, S) == IF S = {} THEN 0
                ELSE LET r == CHOOSE x \in S : TRUE IN Len(f[r]) + SumLen(f, S \ {r})

Without(f, r) == [x \in DOMAIN f \ {r} |-> f[x]]
With(f, r, v) == [x \in DOMAIN f \cup {r} |-> IF x = r THEN v ELSE f[x]]

(* --- how a container comes to be --- *)
Empty          == m' = [r \in {} |-> <<>>]                      /\ res' = Pairs(m')
Others(n, me, v) == m' = [r \in (0..(n - 1)) \ {me} |-> v]      /\ res' = Pairs(m')
All(n, v)      == m' = [r \in 0..(n - 1) |-> v]                 /\ res' = Pairs(m')

(* later entries win *)
RECURSIVE Filled(_, _)
Filled(f, items) == IF items = <<>> THEN f
                    ELSE Filled(With(f, items[1][1], items[1][2]), Tail(items))
FromItems(items) == m' = Filled([r \in {} |-> <<>>], items)     /\ res' = Pairs(m')
Inserted(n, me, items) ==
  m' = Filled([r \in (0..(n - 1)) \ {me} |-> <<>>], items)      /\ res' = Pairs(m')

(* --- what can be done with it --- *)
Get(r)       == UNCHANGED m /\ res' = IF r \in Ranks THEN Value(m[r]) ELSE Nothing
Insert(r, v) == m' = With(m, r, v) /\ res' = Nothing
Remove(r)    == m' = Without(m, r) /\ res' = IF r \in Ranks THEN Value(m[r]) ELSE Nothing
Set(r, v)    == IF r \in Ranks THEN m' = With(m, r, v) /\ res' = TRUE
                ELSE UNCHANGED m /\ res' = FALSE
Push(r, x)   == r \in Ranks /\ m' = With(m, r, Append(m[r], x)) /\ res' = m'[r]
PushAll(x)   == m' = [r \in Ranks |-> Append(m[r], x + r)] /\ res' = Nothing
Iter         == UNCHANGED m /\ res' = Pairs(m)
Size         == UNCHANGED m /\ res' = SumLen(m, Ranks)
Drain        == m' = [r \in {} |-> <<>>] /\ res' = Pairs(m)

Init == m = [r \in {} |-> <<>>] /\ res = Nothing
=============================================================================
