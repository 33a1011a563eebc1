SPECIFICATION GSpec
CONSTANTS
  N = 6
  Noise = 4
  Cap = 4
  Bug = ""
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
