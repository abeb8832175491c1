CONSTANTS Ranks = {0, 1, 2} Rounds = 2 Payloads = {1, 2} Nothing = 0 Blocking = FALSE
SPECIFICATION Spec
INVARIANTS RightData NothingLeft OneRoundAhead AtMostTwoOnTheWay
PROPERTY Refines
