SPECIFICATION Spec
CONSTANTS MaxRows = 4
Keys = {1, 2, 3}
Slots = 3
INVARIANTS Scanned SameAsScan
PROPERTY Done
CHECK_DEADLOCK FALSE
