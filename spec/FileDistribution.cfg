CONSTANTS MaxFiles = 3 MaxEntries = 3 MaxParts = 4
SPECIFICATION Spec
INVARIANTS InFiles Good Disjoint
PROPERTY Finishes
