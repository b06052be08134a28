INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Swap Mirror Division Powers Shifts Bits16
