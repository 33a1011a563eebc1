SPECIFICATION Spec
CONSTANTS
  Budget = 6
  Batch = 0
  Ops = {"r1", "r2", "w1", "w2", "close", "refuse", "A", "B", "failA", "failB"}
  Readers = {"r1", "r2"}
  Writers = {"w1", "w2"}
  Bug = ""
INVARIANTS Allowed Faithful
CHECK_DEADLOCK FALSE
