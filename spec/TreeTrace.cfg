SPECIFICATION Spec
CONSTANT What = "tree"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
