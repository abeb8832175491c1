SPECIFICATION Spec
CONSTANTS N = 3
          P = 4
          MaxKey = 5
          MaxDepth = 3
          C = 1
          Distinct = TRUE
INVARIANTS Agreement InStep Ascending Conserved Contiguous UniqueIds Balanced
