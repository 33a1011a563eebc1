SPECIFICATION GenSpec
CONSTANTS
  Budget = 20
  Batch = 2
  Ops = {"startR", "startW", "cancelR", "cancelW", "close", "close2", "closeIn", "feed", "feed2", "part", "eof", "rerr", "feedEof", "recv", "send", "wrOk", "wrErr", "logR", "logW"}
  Loggers = {"ok"}
  Gated = {TRUE}
  Caps = {0}
  Started = {FALSE}
  MaxFrames = 2
  MaxSends = 2
  Bug = ""
  MaxCloses = 2
VIEW GenView
ACTION_CONSTRAINT Emitted
CONSTRAINT Short
CHECK_DEADLOCK FALSE
