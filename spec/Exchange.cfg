CONSTANTS Ranks = {0, 1, 2} Rounds = 1 Payloads = {1} Nothing = 0 Blocking = FALSE
SPECIFICATION Spec
INVARIANTS RightData NothingLeft OneRoundAhead AtMostTwoOnTheWay
PROPERTIES Refines Finishes
