SPECIFICATION Spec
CONSTANTS
    Savers = {1}
    Loaders = {3, 4}
    Parts = 2
    Saves = 3
    Publishing = TRUE
INVARIANTS WholeLoads HeldStays NeverBack LastStands
PROPERTY Published
CHECK_DEADLOCK FALSE
