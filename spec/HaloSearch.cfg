SPECIFICATION Spec
CONSTANTS Length = 8
          Ranks = 2
          Particles = 4
          Start = 4
          Chunk = 2
          Refuse = FALSE
INVARIANTS RightNeighbours Agree NoneTwice NotRefused
PROPERTY Ends
CHECK_DEADLOCK FALSE
