SPECIFICATION GenSpec
CONSTANTS
  Budget = 30
  Addrs = {"lo1", "lo2", "lo6", "any", "empty", "remote", "broken"}
  Ports = {"p1", "p2", "wrap", "neg", "big"}
  Bug = ""
ACTION_CONSTRAINT WalkEnd
CHECK_DEADLOCK FALSE
