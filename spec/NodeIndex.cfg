CONSTANTS N = 8 MaxDepth = 4
SPECIFICATION Spec
INVARIANTS RoundTrip Injective Fits
CHECK_DEADLOCK FALSE
