SPECIFICATION Spec
CONSTANTS
  Budget = 5
  Batch = 0
  Ops = {"r1", "w1", "A", "B"}
  Readers = {"r1", "r2"}
  Writers = {"w1", "w2"}
  Bug = "lastSender"
INVARIANT Allowed
CHECK_DEADLOCK FALSE
