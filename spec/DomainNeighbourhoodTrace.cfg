SPECIFICATION Spec
CONSTANT What = "neighbourhood"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
