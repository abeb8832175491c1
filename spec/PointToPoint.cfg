CONSTANTS Ranks = {0, 1} Classes = {0, 1} MaxMessages = 4
SPECIFICATION Spec
INVARIANTS InOrderOnce NothingLost Reachable
CHECK_DEADLOCK FALSE
