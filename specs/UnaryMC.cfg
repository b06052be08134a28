SPECIFICATION Spec
CONSTANTS MaxDim = 4
INVARIANTS Right
CHECK_DEADLOCK FALSE
