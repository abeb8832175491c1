CONSTANTS N = 2 Entries <- E2
SPECIFICATION Spec
INVARIANTS Regular PivotThere Triangular SameSolution
CHECK_DEADLOCK FALSE
