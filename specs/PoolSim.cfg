INIT SInit
NEXT SNext
CHECK_DEADLOCK FALSE
CONSTANTS
 Workers = 3
 Works = 2
 Blocks = 3
 Ring = 2
 MaxWake = 3
 Interrupts = 0
 Spurs = 1
INVARIANT Show
CONSTRAINT Stop
