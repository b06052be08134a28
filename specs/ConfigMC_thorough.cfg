SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Vals = {0, 1, 2}
 N = 7
 Block = 2
 Workers = 3
INVARIANT OneResult
