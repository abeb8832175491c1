CONSTANTS MaxLevel2 = 4 MaxLevel3 = 3
SPECIFICATION Spec
INVARIANTS EveryCellOnce NoJumps FinerFollowsCoarser
CHECK_DEADLOCK FALSE
