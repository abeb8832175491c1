SPECIFICATION Spec
CONSTANTS
  Ranks = 2
  First = 2
  Between = 2
  Final = 4
  Steps = {1, 3}
PROPERTY Ends
INVARIANTS OneAtATime NoneFails InOrder SameTime Complete LastAtTheEnd NoBarrierLeft NoDeadlock
CHECK_DEADLOCK FALSE
