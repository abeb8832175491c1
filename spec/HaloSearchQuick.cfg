SPECIFICATION Spec
CONSTANTS Length = 6
          Ranks = 2
          Particles = 3
          Start = 2
          Chunk = 2
          Refuse = FALSE
INVARIANTS RightNeighbours Agree NoneTwice NotRefused
PROPERTY Ends
CHECK_DEADLOCK FALSE
