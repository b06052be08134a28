SPECIFICATION Spec
CONSTANTS N = 8
 Section = 3
INVARIANT Correct
CHECK_DEADLOCK FALSE
