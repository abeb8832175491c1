SPECIFICATION Spec
CONSTANTS
  MaxOverrides = 2
  Rich = FALSE
INVARIANTS AsSpecified Repeatable OthersKept LastWins
CHECK_DEADLOCK FALSE
