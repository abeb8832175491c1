SPECIFICATION Spec
CONSTANT What = "neighbours"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
