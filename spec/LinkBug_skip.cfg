SPECIFICATION Spec
CONSTANTS
  N = 2
  Noise = 1
  Cap = 2
  Bug = "skip"
INVARIANTS InOrder Kept

CHECK_DEADLOCK FALSE
