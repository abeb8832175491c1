SPECIFICATION Spec
CONSTANTS
  Ranks = 2
  Last = 4
  MaxOld = 3
  MaxNew = 2
INVARIANTS Nearest OnlyOwners
