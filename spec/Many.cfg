SPECIFICATION Spec
CONSTANTS
  Streams = {1, 2}
  Budget = 5
  MaxFrames = 2
  Sides = {"R"}
  Bug = ""
INVARIANT Good
CHECK_DEADLOCK FALSE
