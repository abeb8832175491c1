CONSTANTS MaxLevel2 = 6 MaxLevel3 = 4
SPECIFICATION Spec
INVARIANTS EveryCellOnce NoJumps FinerFollowsCoarser
CHECK_DEADLOCK FALSE
