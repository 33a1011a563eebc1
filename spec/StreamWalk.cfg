SPECIFICATION WalkSpec
CONSTANTS
  Budget = 14
  Batch = 2
  Ops = {"startR", "startW", "cancelR", "cancelW", "close", "close2", "closeIn", "feed", "feed2", "part", "eof", "rerr", "feedEof", "recv", "recv2", "send", "wrOk", "wrErr", "logR", "logW"}
  Loggers = {"none", "ok", "err"}
  Gated = {TRUE, FALSE}
  Caps = {0, 2}
  Started = {FALSE}
  MaxFrames = 6
  MaxSends = 6
  Bug = ""
  MaxCloses = 2
ACTION_CONSTRAINT WalkEnd
CHECK_DEADLOCK FALSE
