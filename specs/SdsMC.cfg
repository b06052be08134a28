SPECIFICATION Spec
CONSTANTS MaxSections = 2
VIEW View
INVARIANTS Concatenated Ones Part Kept
CHECK_DEADLOCK FALSE
