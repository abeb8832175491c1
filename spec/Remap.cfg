SPECIFICATION Spec
CONSTANTS
  Ranks = 2
  Last = 3
  MaxOld = 2
  MaxNew = 2
INVARIANTS Nearest OnlyOwners
PROPERTY Ends
