SPECIFICATION Spec
CONSTANT What = "geometry"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
