SPECIFICATION GenSpec
CONSTANTS
  Budget = 20
  Batch = 2
  Ops = {"startR", "cancelR", "close", "feed", "feed2", "part", "eof", "rerr", "feedEof", "recv", "recv2"}
  Loggers = {"none"}
  Gated = {FALSE}
  Caps = {0}
  Started = {FALSE}
  MaxFrames = 2
  MaxSends = 1
  Bug = ""
  MaxCloses = 2
VIEW GenView
ACTION_CONSTRAINT Emitted
CONSTRAINT Short
CHECK_DEADLOCK FALSE
