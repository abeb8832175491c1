SPECIFICATION Spec
CONSTANTS
  MaxFiles = 3
  MaxEntries = 3
  MaxRanks = 3
  MaxChunk = 3
INVARIANTS InOrder Complete Refusal
