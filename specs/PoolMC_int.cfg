SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Workers = 2
 Works = 1
 Blocks = 2
 Ring = 2
 MaxWake = 2
 Interrupts = 1
 Spurs = 1
INVARIANTS Once Inside AllDone NoneLeft Right
PROPERTY Ends
