SPECIFICATION Spec
CONSTANTS
  MaxFiles = 3
  MaxEntries = 2
  MaxRanks = 3
  MaxChunk = 2
INVARIANTS InOrder Complete Refusal
PROPERTY Ends
