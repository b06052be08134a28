SPECIFICATION Spec
CONSTANTS Max1 = 2
Max2 = 3
Keys = {1, 2}
Times = {1, 2}
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
