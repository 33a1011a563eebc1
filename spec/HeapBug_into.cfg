SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  MaxObjs = 4
  Vals = {0, 1}
  Bug = "into"
INVARIANTS
  Values

CHECK_DEADLOCK FALSE
