CONSTANT What = "levels"
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
