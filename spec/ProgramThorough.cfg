SPECIFICATION Spec
CONSTANTS
  NumCells = 4
  NumRanks = 3
  Steps = 2
  Now = FALSE
INVARIANTS NoneLost SameResult
