CONSTANTS MaxFiles = 4 MaxEntries = 4 MaxParts = 5
SPECIFICATION Spec
INVARIANTS InFiles Good Disjoint
PROPERTY Finishes
