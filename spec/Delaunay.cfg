SPECIFICATION Spec
CONSTANTS Side = 3
          MaxPoints = 3
INVARIANTS IsTriangulation OnlyAroundTheNewPoint DelaunayWhenDone
PROPERTY Terminates
CHECK_DEADLOCK FALSE
