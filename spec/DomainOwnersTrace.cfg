SPECIFICATION Spec
CONSTANT What = "owners"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
