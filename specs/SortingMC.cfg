SPECIFICATION Spec
CONSTANTS MaxN = 5
 Vals = {0, 1}
 Workers = {1, 2}
INVARIANTS Right
PROPERTIES Ends
CHECK_DEADLOCK FALSE
