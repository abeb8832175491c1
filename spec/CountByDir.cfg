CONSTANTS NumDirs = 4 MaxCount = 3
SPECIFICATION Spec
INVARIANT NeverNegative
PROPERTY OneLess
CHECK_DEADLOCK FALSE
