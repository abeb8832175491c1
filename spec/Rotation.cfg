SPECIFICATION Spec
CONSTANTS
  N = 2
  M = 2
  MaxTurns = 2
  Forget = TRUE
INVARIANTS Right Possible
