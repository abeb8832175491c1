CONSTANTS
  MaxLevels = 6
  MaxSteps = 9
  Cells = {1, 2}
SPECIFICATION Spec
INVARIANTS Aligned SameTime Updates Cadence
