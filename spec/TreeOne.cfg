SPECIFICATION Spec
CONSTANTS D = 1
          Side = 8
          MaxDepth = 3
          PerLeaf = 1
          MaxNum = 5
INVARIANTS WellFormed SearchExact
CHECK_DEADLOCK FALSE
