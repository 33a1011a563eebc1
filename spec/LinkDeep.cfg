SPECIFICATION Spec
CONSTANTS
  N = 3
  Noise = 2
  Cap = 3
  Bug = ""
INVARIANTS InOrder Kept

CHECK_DEADLOCK FALSE
