SPECIFICATION Spec
CONSTANTS
  Ranks = 2
  Cells = {1, 2}
  Values = {0, 1}
  Steps = 2
INVARIANTS Right Complete Kept
PROPERTY Ends
