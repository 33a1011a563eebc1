SPECIFICATION Spec
CONSTANTS
  Streams = {1, 2}
  Budget = 4
  MaxFrames = 2
  Sides = {"R"}
  Bug = "logger"
INVARIANT Good
CHECK_DEADLOCK FALSE
