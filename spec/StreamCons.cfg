SPECIFICATION Spec
CONSTANTS
  Budget = 4
  Batch = 0
  Ops = {"startR", "cancelR", "close", "feed", "feed2", "part", "eof", "feedEof", "recv", "recv2", "logR"}
  Loggers = {"none", "ok"}
  Gated = {TRUE, FALSE}
  Caps = {0}
  Started = {FALSE}
  MaxFrames = 3
  MaxSends = 2
  Bug = ""
  MaxCloses = 2
INVARIANTS Good Faithful
CHECK_DEADLOCK FALSE
