SPECIFICATION Spec
CONSTANTS D = 1
          Side = 8
          MaxDepth = 3
          PerLeaf = 0
          MaxNum = 3
INVARIANTS WellFormed SearchExact
CHECK_DEADLOCK FALSE
