CONSTANTS N = 3 Entries <- E2
SPECIFICATION Spec
INVARIANTS Regular PivotThere Triangular SameSolution
CHECK_DEADLOCK FALSE
