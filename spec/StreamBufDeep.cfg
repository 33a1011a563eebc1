SPECIFICATION Spec
CONSTANTS
  Budget = 6
  Batch = 0
  Ops = {"startW", "cancelW", "close", "close2", "closeIn", "send", "wrOk", "wrErr", "logW"}
  Loggers = {"none", "ok"}
  Gated = {TRUE, FALSE}
  Caps = {1, 2}
  Started = {FALSE}
  MaxFrames = 3
  MaxSends = 3
  Bug = ""
  MaxCloses = 2
INVARIANTS Good Faithful
CHECK_DEADLOCK FALSE
