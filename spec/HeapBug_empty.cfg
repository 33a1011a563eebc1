SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  MaxObjs = 4
  Vals = {0, 1}
  Bug = "empty"
INVARIANTS
  Values

CHECK_DEADLOCK FALSE
