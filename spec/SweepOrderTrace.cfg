CONSTANT What = "order"
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
