SPECIFICATION Spec
CONSTANTS
  Streams = {1, 2}
  Budget = 4
  MaxFrames = 2
  Sides = {"W"}
  Bug = ""
INVARIANT Good
CHECK_DEADLOCK FALSE
