SPECIFICATION Spec
CONSTANTS
  Ranks = 3
  Cells = {1, 2, 3}
  Values = {0, 1}
  Steps = 2
INVARIANTS Right Complete Kept
