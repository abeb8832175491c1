---------------------------- MODULE DeterminantMC ----------------------------
EXTENDS Determinant
E3 == {-1, 0, 2}
F3 == {-1, 2}
=============================================================================
