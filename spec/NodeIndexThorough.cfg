CONSTANTS N = 8 MaxDepth = 5
SPECIFICATION Spec
INVARIANTS RoundTrip Injective Fits
CHECK_DEADLOCK FALSE
