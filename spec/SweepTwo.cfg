CONSTANTS
  Cells = {1, 2}
  Ranks = {1, 2}
  Dirs = {1, 2}
  Steps = 3
  Levels = 2
  AllOwners = TRUE
  Inactive = "exchange"
  PeriodicNow = FALSE
SPECIFICATION Spec
INVARIANTS RightRates CountsNatural NothingLeft SameSweep
