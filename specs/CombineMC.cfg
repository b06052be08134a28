SPECIFICATION Spec
CONSTANTS N = 4
 M = 1
INVARIANTS Partition Linear Sharp
CHECK_DEADLOCK FALSE
