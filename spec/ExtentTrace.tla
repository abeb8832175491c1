----------------------------- MODULE ExtentTrace -----------------------------
EXTENDS TraceLib
VARIABLES l
E == INSTANCE Extent WITH Dim <- 1, Coord <- {}, MaxPoints <- 0, pts <- <<>>, box <- <<>>

Allowed(r) ==
  /\ r.ok
  /\ IF r.pts = <<>> THEN r.extent = <<>>
     ELSE /\ Len(r.extent) = 1
          /\ LET e == r.extent[1]
                 b == <<e.min, e.max>>
             IN  /\ Len(e.min) = r.dim /\ Len(e.max) = r.dim
                 /\ E!Smallest(b, r.pts)
                 /\ e.center2 = E!TwiceCenter(b)
                 /\ e.sides = E!Sides(b)
                 /\ e.maxside = E!LongestSide(b)
                 /\ <<e.pmin, e.pmax>> = E!WithImages(b)
                 /\ e.pcenter2 = e.center2

Init == l = 1
Next == l <= Len(Trace) /\ Allowed(Trace[l]) = TRUE /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
