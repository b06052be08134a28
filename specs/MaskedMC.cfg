SPECIFICATION Spec
CONSTANTS N = 6
 Section = 2
INVARIANT Correct
CHECK_DEADLOCK FALSE
