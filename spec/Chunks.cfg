CONSTANTS N = 2 MaxLen = 5 MaxChunk = 4
SPECIFICATION Spec
INVARIANT AllGood
