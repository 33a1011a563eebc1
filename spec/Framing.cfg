SPECIFICATION Spec
CONSTANTS
  N = 5
  Bytes = {0, 1, 2, 3}
  Caps = {6, 7, 12}
INVARIANTS TypeOK Exact Sound Filter
PROPERTY Ends
CHECK_DEADLOCK FALSE
