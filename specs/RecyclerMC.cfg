INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Objs = 4
 Sizes = 2
 Slots = 1
 MaxInc = 1
 MaxRefs = 2
INVARIANTS OneOwner Alive Counts Slotted NoLeak
