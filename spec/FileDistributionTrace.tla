----------------------- MODULE FileDistributionTrace -----------------------
EXTENDS TraceLib
CONSTANT None
VARIABLES l

FD == INSTANCE FileDistribution WITH
        MaxFiles <- 0, MaxEntries <- 0, MaxParts <- 0, kind <- None, files <- None,
        shares <- None, rank <- None, need <- None, file <- None, pos <- None, out <- None

Allowed(r) ==
  /\ r.ok
  /\ IF r.kind = "input" THEN FD!GoodInput(r.sizes, r.num, r.ranks)
     ELSE FD!GoodOutput(r.sizes, r.num, r.ranks)

Init == l = 1
Next == l <= Len(Trace) /\ Allowed(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
