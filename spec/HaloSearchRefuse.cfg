SPECIFICATION Spec
CONSTANTS Length = 10
          Ranks = 2
          Particles = 4
          Start = 3
          Chunk = 20
          Refuse = TRUE
INVARIANTS RightNeighbours Agree NoneTwice NotRefused
PROPERTY Ends
CHECK_DEADLOCK FALSE
