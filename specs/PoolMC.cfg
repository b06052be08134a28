SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Workers = 2
 Works = 2
 Blocks = 2
 Ring = 2
 MaxWake = 2
 Interrupts = 0
 Spurs = 0
INVARIANTS Once Inside AllDone NoneLeft Right
PROPERTY Ends
