SPECIFICATION Spec
CONSTANTS N = 2
          P = 4
          MaxKey = 6
          MaxDepth = 3
          C = 2
          Distinct = FALSE
INVARIANTS Agreement InStep Ascending Conserved Contiguous UniqueIds
