------------------------------- MODULE Arena -------------------------------
(* The store for the points, faces and tetrahedra of a triangulation.        *)
(* Handles are numbered in the order in which they were given out; whatever  *)
(* the handles look like, a handle stays valid until its own entry is        *)
(* removed, never again after that, and never leads to a different entry.    *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES store,   \* live handles -> values
          given,   \* number of handles given out so far
          res
vars == <<store, given, res>>

Live == DOMAIN store
Without(f, h) == [x \in DOMAIN f \ {h} |-> f[x]]
With(f, h, v) == [x \in DOMAIN f \cup {h} |-> IF x = h THEN v ELSE f[x]]
Sorted(S) == CHOOSE s \in [1..Cardinality(S) -> S] :
               \A i, j \in DOMAIN s : i < j => s[i] < s[j]

(* The i-th smallest first, by insertion. *)
RECURSIVE InsertSorted(_, _)
InsertSorted(s, v) ==
  IF s = <<>> THEN <<v>>
  ELSE IF v <= Head(s) THEN <<v>> \o s ELSE <<Head(s)>> \o InsertSorted(Tail(s), v)
RECURSIVE SortedValues(_, _)
SortedValues(f, S) ==
  IF S = {} THEN <<>>
  ELSE LET h == CHOOSE x \in S : TRUE IN InsertSorted(SortedValues(f, S \ {h}), f[h])
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>>
              ELSE LET h == CHOOSE x \in S : \A y \in S : x <= y
                   IN <<<<h, store[h]>>>> \o Ordered(S \ {h})

New         == store' = [h \in {} |-> 0] /\ given' = 0 /\ res' = 0
Insert(v)   == store' = With(store, given, v) /\ given' = given + 1
               /\ res' = FALSE       \* "does the handle equal one that is live"
Remove(h)   == store' = Without(store, h) /\ UNCHANGED given
               /\ res' = IF h \in Live THEN <<store[h]>> ELSE <<>>
Get(h)      == UNCHANGED <<store, given>> /\ res' = IF h \in Live THEN <<store[h]>> ELSE <<>>
Contains(h) == UNCHANGED <<store, given>> /\ res' = (h \in Live)
Count       == UNCHANGED <<store, given>> /\ res' = Cardinality(Live)
Set(h, v)   == h \in Live /\ store' = With(store, h, v) /\ UNCHANGED given /\ res' = v
Iter        == UNCHANGED <<store, given>> /\ res' = Ordered(Live)
Values      == UNCHANGED <<store, given>> /\ res' = SortedValues(store, Live)

CONSTANTS MaxHandles, Vals
Init == store = [h \in {} |-> 0] /\ given = 0 /\ res = 0
Next ==
  \/ New \/ Count \/ Iter \/ Values
  \/ \E v \in Vals : given < MaxHandles /\ Insert(v)
  \/ \E h \in 0..(given - 1) : Remove(h) \/ Get(h) \/ Contains(h)
  \/ \E h \in Live, v \in Vals : Set(h, v)
Spec == Init /\ [][Next]_vars

OnlyGiven == Live \subseteq 0..(given - 1)
(* A removed entry does not come back. *)
NoResurrection ==
  [][given' >= given => \A h \in 0..(given - 1) : h \in DOMAIN store' => h \in DOMAIN store \/ given' = 0]_vars
Stable ==
  [][\A h \in Live : Remove(h) => \A g \in Live \ {h} : g \in DOMAIN store' /\ store'[g] = store[g]]_vars
=============================================================================
