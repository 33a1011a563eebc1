SPECIFICATION Spec
CONSTANTS
  Budget = 4
  Batch = 0
  Ops = {"r1", "r2", "w1", "w2", "close", "refuse", "A", "B", "failA", "failB"}
  Readers = {"r1", "r2"}
  Writers = {"w1", "w2"}
  Bug = "setOnFail"
INVARIANT Allowed
CHECK_DEADLOCK FALSE
