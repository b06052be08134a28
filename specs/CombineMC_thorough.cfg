SPECIFICATION Spec
CONSTANTS N = 4
 M = 2
INVARIANTS Partition Linear Sharp
CHECK_DEADLOCK FALSE
