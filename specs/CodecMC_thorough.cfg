INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS N = 6
 Values = {0, 1, 128, 255}
INVARIANTS Typed Detects Cuts Known
