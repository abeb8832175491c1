SPECIFICATION Spec
CONSTANTS
  Ranks = 2
  Last = 3
  MaxParticles = 2
  MaxSources = 2
  OwnerOnly = FALSE
INVARIANTS AtMostOnce Conserved Nearest Same
PROPERTY Ends
