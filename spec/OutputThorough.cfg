SPECIFICATION Spec
CONSTANTS
  Ranks = 4
  First = 2
  Between = 2
  Final = 4
  Steps = {1, 3}
INVARIANTS OneAtATime NoneFails InOrder SameTime Complete LastAtTheEnd NoBarrierLeft NoDeadlock
CHECK_DEADLOCK FALSE
