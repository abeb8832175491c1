SPECIFICATION Spec
CONSTANTS D = 3
          Side = 2
          MaxDepth = 1
          PerLeaf = 0
          MaxNum = 3
INVARIANTS WellFormed SearchExact
CHECK_DEADLOCK FALSE
