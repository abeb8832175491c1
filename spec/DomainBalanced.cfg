SPECIFICATION Spec
CONSTANTS N = 2
          P = 5
          MaxKey = 7
          MaxDepth = 3
          C = 2
          Distinct = TRUE
INVARIANTS Agreement InStep Ascending Conserved Contiguous UniqueIds Balanced
