SPECIFICATION Spec
CONSTANTS Side = 4
          MaxPoints = 4
INVARIANTS IsTriangulation OnlyAroundTheNewPoint DelaunayWhenDone
CHECK_DEADLOCK FALSE
