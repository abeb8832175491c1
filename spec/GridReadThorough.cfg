CONSTANTS Ranks = 3  Particles = 3  MaxConnections = 2  Chunk = 1
SPECIFICATION Spec
INVARIANT Inv
