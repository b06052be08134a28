SPECIFICATION Spec
CONSTANTS N = 6
 V = 9
INVARIANTS Correct InRange Ends
CHECK_DEADLOCK FALSE
