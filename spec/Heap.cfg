SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  MaxObjs = 4
  Vals = {0, 1}
  Bug = "none"
INVARIANTS
  Values
  Apart
CHECK_DEADLOCK FALSE
