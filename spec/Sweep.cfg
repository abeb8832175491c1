CONSTANTS
  Cells = {1, 2, 3}
  Ranks = {1, 2}
  Dirs = {1}
  Steps = 2
  Levels = 2
  AllOwners = FALSE
  Inactive = "exchange"
  PeriodicNow = FALSE
SPECIFICATION Spec
INVARIANTS RightRates CountsNatural NothingLeft SameSweep
