CONSTANTS
  Ranks = {1, 2}
  Total = 3
  Eager = TRUE
SPECIFICATION Spec
INVARIANTS OnceInOrder BufferKept
