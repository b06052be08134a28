SPECIFICATION Spec
CONSTANTS
  Rows = 4
  BlockLen = 2
  Workers = {w1, w2}
  Vals = {1, 3,  2000000000}
  NBins = 2
  Fns = {0, 1, 2, 3, 50, 51, 52, 53}
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
