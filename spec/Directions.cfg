SPECIFICATION Spec
INVARIANTS StaysRotation KeepsSet
CHECK_DEADLOCK FALSE
