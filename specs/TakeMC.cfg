SPECIFICATION Spec
CONSTANTS N = 7
 Chunk = 3
INVARIANT Correct
INVARIANT NoClash
CHECK_DEADLOCK FALSE
