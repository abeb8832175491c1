SPECIFICATION Spec
CONSTANTS D = 2
          Side = 4
          MaxDepth = 2
          PerLeaf = 0
          MaxNum = 2
INVARIANTS WellFormed SearchExact
CHECK_DEADLOCK FALSE
