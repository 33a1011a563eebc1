SPECIFICATION Spec
CONSTANTS
  Budget = 5
  Addrs = {"lo1", "lo2", "any", "remote"}
  Ports = {"p1", "p2", "wrap"}
  Bug = ""
INVARIANT Allowed
INVARIANT Apart
VIEW DesignView
CHECK_DEADLOCK FALSE
