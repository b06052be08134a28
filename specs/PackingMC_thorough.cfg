CONSTANTS MaxRows = 5
 NB = 3
 Cores = 3
INIT Init
NEXT Next
INVARIANTS Packed Chained
CHECK_DEADLOCK FALSE
