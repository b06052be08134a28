INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS N = 4
 Values = {0, 1, 128, 255}
INVARIANTS Typed Detects Cuts Known
