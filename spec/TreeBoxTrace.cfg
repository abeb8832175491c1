SPECIFICATION Spec
CONSTANT What = "box"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
