SPECIFICATION Spec
CONSTANTS
  Streams = {1, 2}
  Budget = 3
  MaxFrames = 1
  Sides = {"W"}
  Bug = "turn"
INVARIANT Good
CHECK_DEADLOCK FALSE
