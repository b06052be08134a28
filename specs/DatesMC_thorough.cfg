INIT Init
NEXT Next
CONSTANT LastYear = 2099
INVARIANT Right
CHECK_DEADLOCK FALSE
