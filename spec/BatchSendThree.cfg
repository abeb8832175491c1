CONSTANTS
  Ranks = {1, 2, 3}
  Total = 1
  Eager = FALSE
SPECIFICATION Spec
INVARIANTS OnceInOrder BufferKept
