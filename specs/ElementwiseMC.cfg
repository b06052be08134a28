SPECIFICATION Spec
CONSTANTS MaxLen = 4
V = 2
Chunk = 3
Workers = {w1, w2}
Vals = {0, 3, 7}
W = 4
INVARIANTS Once Complete
CHECK_DEADLOCK FALSE
