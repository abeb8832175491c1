CONSTANTS Dim = 2 Coord = {0, 1, 2} MaxPoints = 4
SPECIFICATION Spec
INVARIANTS NoneIfEmpty Tight ImagesFit
PROPERTY Grows
CHECK_DEADLOCK FALSE
