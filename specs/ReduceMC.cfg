SPECIFICATION Spec
CONSTANTS MaxN = 4
 Vals = {0, 1, 2000000000}
 Workers = {1, 2}
 Chunk = 1
INVARIANTS Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
