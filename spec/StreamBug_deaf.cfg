SPECIFICATION Spec
CONSTANTS
  Budget = 2
  Batch = 0
  Ops = {"startR", "startW", "cancelR", "cancelW", "close", "close2", "closeIn", "feed", "feed2", "part", "eof", "rerr", "feedEof", "recv", "send", "wrOk", "wrErr", "logR", "logW"}
  Loggers = {"none", "ok"}
  Gated = {FALSE}
  Caps = {0}
  Started = {TRUE}
  MaxFrames = 3
  MaxSends = 2
  Bug = "deaf"
  MaxCloses = 2
INVARIANTS Good Faithful
CHECK_DEADLOCK FALSE
