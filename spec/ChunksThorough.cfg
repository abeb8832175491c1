CONSTANTS N = 3 MaxLen = 5 MaxChunk = 4
SPECIFICATION Spec
INVARIANT AllGood
