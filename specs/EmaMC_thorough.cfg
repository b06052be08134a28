SPECIFICATION Spec
CONSTANTS MaxLen = 4
Vals = {1, 3, 2000000000}
Groups = 1
Fns = {"sum", "prod", "min", "max", "nanmin", "nanmax"}
Cols = {1}
INVARIANT Right
CHECK_DEADLOCK FALSE
