CONSTANTS
  Cells = {1, 2}
  Ranks = {1, 2}
  Dirs = {1}
  Steps = 2
  Levels = 3
  AllOwners = TRUE
  Inactive = "exchange"
  PeriodicNow = FALSE
SPECIFICATION Spec
INVARIANTS RightRates CountsNatural NothingLeft SameSweep
