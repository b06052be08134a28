CONSTANTS MaxRows = 4
 NB = 2
 Cores = 3
INIT Init
NEXT Next
INVARIANTS Packed Chained
CHECK_DEADLOCK FALSE
