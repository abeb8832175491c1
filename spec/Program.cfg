SPECIFICATION Spec
CONSTANTS
  NumCells = 3
  NumRanks = 2
  Steps = 2
  Now = FALSE
INVARIANTS NoneLost SameResult
PROPERTY Ends
