CONSTANT What = "rates"
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
