SPECIFICATION GenSpec
CONSTANTS
  Budget = 20
  Batch = 2
  Ops = {"startW", "cancelW", "close", "close2", "closeIn", "send", "wrOk", "wrErr", "logW"}
  Loggers = {"none", "ok"}
  Gated = {TRUE, FALSE}
  Caps = {1, 2}
  Started = {FALSE}
  MaxFrames = 1
  MaxSends = 4
  Bug = ""
  MaxCloses = 2
VIEW GenView
ACTION_CONSTRAINT Emitted
CONSTRAINT Short
CHECK_DEADLOCK FALSE
