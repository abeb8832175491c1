SPECIFICATION Spec
CONSTANTS
  Top = 6
  Depth = 4
  RawFloor = FALSE
INVARIANTS InOrder InRange KeptAbove Covered GivenUp Gains
PROPERTY Ends
