SPECIFICATION Spec
CONSTANTS
    Savers = {1, 2}
    Loaders = {3}
    Parts = 2
    Saves = 2
    Publishing = TRUE
INVARIANTS WholeLoads HeldStays NeverBack LastStands
PROPERTY Published
CHECK_DEADLOCK FALSE
