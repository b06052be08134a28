INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Objs = 5
 Sizes = 2
 Slots = 2
 MaxInc = 1
 MaxRefs = 2
INVARIANTS OneOwner Alive Counts Slotted NoLeak
