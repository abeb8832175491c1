CONSTANTS
  MaxLevels = 4
  MaxSteps = 6
  Cells = {1, 2}
SPECIFICATION Spec
INVARIANTS Aligned SameTime Updates Cadence
