INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Order Grows Exact Same
