SPECIFICATION Spec
CONSTANTS
  Budget = 5
  Batch = 0
  Ops = {"startW", "cancelW", "close", "closeIn", "send", "wrOk", "wrErr", "logW"}
  Loggers = {"none"}
  Gated = {FALSE}
  Caps = {2}
  Started = {TRUE}
  MaxFrames = 3
  MaxSends = 2
  Bug = "newest"
  MaxCloses = 2
INVARIANTS Good Faithful
CHECK_DEADLOCK FALSE
