SPECIFICATION Spec
CONSTANTS
  MaxOverrides = 2
  Rich = TRUE
INVARIANTS AsSpecified Repeatable OthersKept LastWins
CHECK_DEADLOCK FALSE
