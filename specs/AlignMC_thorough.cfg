SPECIFICATION Spec
CONSTANTS Max1 = 3
Max2 = 3
Keys = {1, 2}
Times = {1, 2, 3}
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
