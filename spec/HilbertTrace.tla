---------------------------- MODULE HilbertTrace ----------------------------
(* A record of kind "block" has, for all cells `depth` levels below some     *)
(* cell, the leading digits of the keys of points in them: `heads` are the   *)
(* digits that belong to the common ancestor, t the number that the digits   *)
(* after that make up.                                                       *)
EXTENDS TraceLib
VARIABLES l
H == INSTANCE Hilbert WITH MaxLevel2 <- 0, MaxLevel3 <- 0, gdim <- 2, level <- 0,
                           line <- <<>>, before <- <<>>

(* All cells of a block have a place of their own, with the same beginning; *)
(* in that order they make up a curve.                                      *)
Block(r) ==
  LET side  == H!Pow2(r.depth)
      count == Len(r.cells)
      places == { r.cells[k].t[1] : k \in 1..count }
      at    == [t \in 1..count |-> CHOOSE k \in 1..count : r.cells[k].t[1] = t - 1]
  IN  /\ Len(r.heads) = 1
      /\ \A k \in 1..count : Len(r.cells[k].t) = 1
      /\ places = 0..(count - 1)
      /\ LET curve == [t \in 1..count |-> r.cells[at[t]].c]
         IN  /\ count = IF r.dim = 2 THEN side * side ELSE side * side * side
             /\ H!Bijective(curve, r.dim, side)
             /\ H!Continuous(curve)
             /\ r.depth > 1 =>
                  \* the cells one level up are gone through one after the other
                  \A t \in 1..(count - 1) :
                     t % H!Pow2(r.dim) # 0 => H!Parent(curve[t]) = H!Parent(curve[t + 1])

Allowed(r) ==
  /\ r.ok
  /\ IF r.kind = "block" THEN Block(r)
     ELSE Cardinality(Range(r.keys)) = Len(r.keys)

Init == l = 1
Next == l <= Len(Trace) /\ Allowed(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
