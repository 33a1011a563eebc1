SPECIFICATION Spec
CONSTANTS
  N = 2
  Noise = 0
  Cap = 2
  Bug = "late"
INVARIANTS InOrder Kept
PROPERTY Arrives
CHECK_DEADLOCK FALSE
