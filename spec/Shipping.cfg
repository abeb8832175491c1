CONSTANTS Bytes = 4 Vals = {0, 1}
SPECIFICATION Spec
INVARIANTS ValueArrives NothingElse
CHECK_DEADLOCK FALSE
