SPECIFICATION Spec
CONSTANTS
  Streams = {1, 2}
  Budget = 3
  MaxFrames = 2
  Sides = {"R", "W"}
  Bug = ""
INVARIANT Good
CHECK_DEADLOCK FALSE
