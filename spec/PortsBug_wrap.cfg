SPECIFICATION Spec
CONSTANTS
  Budget = 6
  Addrs = {"lo1", "lo2"}
  Ports = {"p1", "wrap"}
  Bug = "wrap"
INVARIANT Allowed

VIEW DesignView
CHECK_DEADLOCK FALSE
