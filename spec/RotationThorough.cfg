SPECIFICATION Spec
CONSTANTS
  N = 3
  M = 2
  MaxTurns = 1
  Forget = TRUE
INVARIANTS Right Possible
