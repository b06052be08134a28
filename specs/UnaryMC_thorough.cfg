SPECIFICATION Spec
CONSTANTS MaxDim = 7
INVARIANTS Right
CHECK_DEADLOCK FALSE
