CONSTANTS NumDirs = 6 MaxCount = 3
SPECIFICATION Spec
INVARIANT NeverNegative
PROPERTY OneLess
CHECK_DEADLOCK FALSE
