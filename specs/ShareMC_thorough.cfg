SPECIFICATION Spec
CONSTANTS
    Savers = {1}
    Loaders = {3, 4}
    Parts = 3
    Saves = 4
    Publishing = TRUE
INVARIANTS WholeLoads HeldStays NeverBack LastStands
PROPERTY Published
CHECK_DEADLOCK FALSE
