SPECIFICATION Spec
CONSTANTS MaxLen = 3
Vals = {1, 3, 2000000000}
Groups = 2
Fns = {"sum", "prod", "min", "max", "nanmin", "nanmax"}
Cols = {1}
INVARIANT Right
CHECK_DEADLOCK FALSE
