SPECIFICATION Spec
CONSTANTS MaxRows = 5
Keys = {1, 2, 3}
Slots = 4
INVARIANTS Scanned SameAsScan
PROPERTY Done
CHECK_DEADLOCK FALSE
