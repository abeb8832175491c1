CONSTANTS NumRanks = 3 Elements = {0, 1} MaxLen = 3
SPECIFICATION MCSpec
CONSTRAINT Bounded
INVARIANT OnlyRanks
VIEW View
PROPERTIES ReadsAreSilent Local RemovedIsGone SetKeepsKeys
CHECK_DEADLOCK FALSE
