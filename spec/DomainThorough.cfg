SPECIFICATION Spec
CONSTANTS N = 3
          P = 6
          MaxKey = 6
          MaxDepth = 3
          C = 1
          Distinct = TRUE
INVARIANTS Agreement InStep Ascending Conserved Contiguous UniqueIds Balanced
