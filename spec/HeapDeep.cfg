SPECIFICATION Spec
CONSTANTS
  MaxOps = 8
  MaxObjs = 5
  Vals = {0, 1}
  Bug = "none"
INVARIANTS
  Values
  Apart
CHECK_DEADLOCK FALSE
