SPECIFICATION Spec
CONSTANTS
  Ranks = 2
  First = 0
  Between = 0
  Final = 4
  Steps = {1, 3}
INVARIANTS OneAtATime NoneFails InOrder SameTime Complete LastAtTheEnd NoBarrierLeft NoDeadlock
CHECK_DEADLOCK FALSE
