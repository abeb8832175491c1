CONSTANTS Bytes = 6 Vals = {0, 1}
SPECIFICATION Spec
INVARIANTS ValueArrives NothingElse
CHECK_DEADLOCK FALSE
