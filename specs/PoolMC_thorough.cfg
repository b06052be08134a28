SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Workers = 2
 Works = 3
 Blocks = 2
 Ring = 2
 MaxWake = 1
 Interrupts = 1
 Spurs = 2
INVARIANTS Once Inside AllDone NoneLeft Right
PROPERTY Ends
