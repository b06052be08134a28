SPECIFICATION Spec
CONSTANTS MaxLen = 5
Vals = {1, 2, 5, 2000000000}
Windows = {1, 2, 3, 6}
Quantiles <- Qs
INVARIANT Right
CHECK_DEADLOCK FALSE
