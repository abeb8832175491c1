--------------------------- MODULE LinearAlgebraMC ---------------------------
EXTENDS LinearAlgebra
E2 == {-1, 0, 2}
=============================================================================
