CONSTANTS MaxHandles = 5 Vals = {1, 2}
SPECIFICATION Spec
INVARIANT OnlyGiven
PROPERTIES NoResurrection Stable
CHECK_DEADLOCK FALSE
