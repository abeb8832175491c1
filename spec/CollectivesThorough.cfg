CONSTANTS Ranks = 3 Vals = {0, 1} NumOps = 3
SPECIFICATION Spec
INVARIANTS ResultsRight SameEverywhere InStep
PROPERTY Finishes
