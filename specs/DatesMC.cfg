INIT Init
NEXT Next
CONSTANT LastYear = 2004
INVARIANT Right
CHECK_DEADLOCK FALSE
