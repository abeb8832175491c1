SPECIFICATION Spec
CONSTANTS
  Ranks = 3
  Last = 3
  MaxParticles = 3
  MaxSources = 1
  OwnerOnly = FALSE
INVARIANTS AtMostOnce Conserved Nearest Same
PROPERTY Ends
