SPECIFICATION Spec
CONSTANT What = "particles"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
