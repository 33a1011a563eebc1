SPECIFICATION Spec
CONSTANTS
  N = 7
  Bytes = {0, 1, 2, 3}
  Caps = {6, 12}
INVARIANTS TypeOK Exact Sound Filter
CHECK_DEADLOCK FALSE
