INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS TrimOk Points Inside
