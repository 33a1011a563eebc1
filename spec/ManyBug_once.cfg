SPECIFICATION Spec
CONSTANTS
  Streams = {1, 2}
  Budget = 3
  MaxFrames = 2
  Sides = {"R"}
  Bug = "once"
INVARIANT Good
CHECK_DEADLOCK FALSE
