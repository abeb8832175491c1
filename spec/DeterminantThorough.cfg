CONSTANTS Size = 3 Entries <- E3 Factors <- F3 MaxOps = 3
SPECIFICATION Spec
INVARIANT SignIsExact
PROPERTY SignChangesOnlyBySwaps
CHECK_DEADLOCK FALSE
