CONSTANTS Ranks = {0, 1} Rounds = 3 Payloads = {1, 2} Nothing = 0 Blocking = FALSE
SPECIFICATION Spec
INVARIANTS RightData NothingLeft OneRoundAhead AtMostTwoOnTheWay
PROPERTIES Refines Finishes
