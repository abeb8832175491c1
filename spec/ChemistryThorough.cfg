SPECIFICATION Spec
CONSTANTS
  Top = 40
  Depth = 7
  RawFloor = FALSE
INVARIANTS InOrder InRange KeptAbove Covered GivenUp Gains
PROPERTY Ends
