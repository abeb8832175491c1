CONSTANT None = None
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
