CONSTANTS Ranks = 3 Vals = {0, 1} NumOps = 2
SPECIFICATION Spec
INVARIANTS ResultsRight SameEverywhere InStep
PROPERTY Finishes
