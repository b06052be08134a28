SPECIFICATION Spec
CONSTANTS N = 6
 V = 7
INVARIANTS Correct InRange Ends
CHECK_DEADLOCK FALSE
