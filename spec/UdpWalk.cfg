SPECIFICATION WalkSpec
CONSTANTS
  Budget = 12
  Batch = 2
  Ops = {"r1", "r2", "w1", "w2", "close", "refuse", "A", "B", "failA", "failB"}
  Readers = {"r1", "r2"}
  Writers = {"w1", "w2"}
  Bug = ""
ACTION_CONSTRAINT WalkEnd
CHECK_DEADLOCK FALSE
