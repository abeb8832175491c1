CONSTANTS
  Ranks = {1, 2}
  Total = 3
  Eager = FALSE
SPECIFICATION Spec
INVARIANTS OnceInOrder BufferKept
