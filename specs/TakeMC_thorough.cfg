SPECIFICATION Spec
CONSTANTS N = 8
 Chunk = 2
INVARIANT Correct
INVARIANT NoClash
CHECK_DEADLOCK FALSE
