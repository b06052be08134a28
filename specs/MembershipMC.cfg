SPECIFICATION Spec
CONSTANTS MaxA = 2
MaxB = 3
Keys = {1, 2, 3}
Slots = 3
Workers = {1, 2}
Nan = 3
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
