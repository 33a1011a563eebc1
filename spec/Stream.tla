-------------------------------- MODULE Stream --------------------------------
(***************************************************************************)
(* The frame stream as it is built: a read loop, a write loop, users that   *)
(* close, a close procedure guarded by a once (set the close error, close   *)
(* the transport, close the signal, take the delivery lock, close the       *)
(* delivery channel), in all interleavings with each other and with the     *)
(* environment: transport, contexts, consumer, producer, logger.            *)
(*                                                                          *)
(* Every step that an observer can see emits its event into the acceptor    *)
(* StreamAbs; the invariant Good says no history is ever rejected.  Steps   *)
(* of the environment that follow a rendezvous (a consumer notes what it    *)
(* got, ...) are steps of their own, so the acceptor is shown to be         *)
(* insensitive to how late the observer notes things down.                  *)
(*                                                                          *)
(* The environment acts at any time (Batch = 0), or only when the system is *)
(* at rest and then with up to Batch operations at once; in the second mode *)
(* the operations performed so far (ops) are the scenario that is replayed  *)
(* into the real code.                                                      *)
(***************************************************************************)
EXTENDS StreamAbs, SequencesExt, TLC

CONSTANTS Budget,     \* operations of the environment
          Batch,      \* 0, or operations that may happen at once
          Ops,        \* the operations of the environment
          Loggers,    \* logger configurations
          Gated,      \* BOOLEANs: does the logger hold the caller until released?
          Caps,       \* capacities of the write channel
          Started,    \* BOOLEANs: do the loops already run?
          Bug,        \* "": as built; otherwise a mistake that must be noticed
          MaxFrames, MaxSends, MaxCloses

VARIABLES
  cfg,
  rp, wp,             \* program counters of the loops
  cl, cerr,           \* close procedure: program counter and argument per thread
  once,               \* "free", "busy", "done"
  closeErr, rwcClosed, sigC, lock, outC,
  pipe,               \* pieces the transport has for reading
  bufN, bufErr,       \* frames in the stream's buffer, error behind them
  taken,              \* frames taken from the buffer
  half,               \* a part of a frame is on the wire
  inC, ctxR, ctxW,    \* write channel closed, contexts cancelled
  noteR, noteW,       \* cancel has happened but its return is not noted yet
  sp, sid, inQ,       \* producer, and what waits in the write channel
  wid,                \* frame the write loop holds
  wgate, rlog, wlog,  \* releases of a pending write / logger call
  cons, cid,          \* consumers
  watch, werr,        \* observer of the closed signal
  up,                 \* closing users
  left, now, ops,     \* budget; operations of the current batch; batches so far
  rested,             \* this rest has been observed
  a, bad

lib == <<rp, wp, cl, cerr, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid>>
env == <<cfg, pipe, half, inC, ctxR, ctxW, noteR, noteW, sp, sid, inQ, wgate, rlog, wlog, cons, cid, watch, werr, up>>
gen == <<left, now, ops, rested>>
obs == <<a, bad>>
vars == <<lib, env, gen, obs>>

Threads == {"R", "W", "U1", "U2"}
Users == {"U1", "U2"}
Consumers == {"C1", "C2"}

Emit(e) == a' = After(a, e) /\ bad' = bad \cup Bad(a, e)
Silent == UNCHANGED obs
Ev(n) == [e |-> n]

Init ==
  /\ cfg \in { [logger |-> l, buffered |-> c > 0, cap |-> c, gated |-> g] : l \in Loggers, g \in Gated, c \in Caps }
  /\ cfg.logger = "none" => ~cfg.gated
  /\ \/ FALSE \in Started /\ rp = "no" /\ wp = "no" /\ a = Start(cfg)
     \/ TRUE \in Started /\ rp = "top" /\ wp = "top" /\ a = After(After(Start(cfg), Ev("startR")), Ev("startW"))
  /\ cl = [t \in Threads |-> "out"] /\ cerr = [t \in Threads |-> ""]
  /\ once = "free" /\ closeErr = "" /\ rwcClosed = FALSE /\ sigC = FALSE /\ lock = "" /\ outC = FALSE
  /\ pipe = <<>> /\ bufN = 0 /\ bufErr = "" /\ taken = 0 /\ half = FALSE
  /\ inC = FALSE /\ ctxR = FALSE /\ ctxW = FALSE /\ noteR = FALSE /\ noteW = FALSE
  /\ sp = "idle" /\ sid = 0 /\ inQ = <<>> /\ wid = 0
  /\ wgate = "" /\ rlog = FALSE /\ wlog = FALSE
  /\ cons = [c \in Consumers |-> "idle"] /\ cid = [c \in Consumers |-> 0]
  /\ watch = "wait" /\ werr = ""
  /\ up = [u \in Users |-> "idle"]
  /\ left = Budget /\ now = {} /\ ops = <<>> /\ rested = FALSE
  /\ bad = {}

---------------------------------------------------------------------------
\* The close procedure, executed by thread t.

Enter(t, err) == /\ cl' = [cl EXCEPT ![t] = "enter"] /\ cerr' = [cerr EXCEPT ![t] = err]

CloseStep(t) ==
  \/ /\ cl[t] = "enter" /\ (once = "free" \/ Bug = "noOnce")
     /\ once' = "busy" /\ cl' = [cl EXCEPT ![t] = "seterr"]
     /\ UNCHANGED <<rp, wp, cerr, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid, env>> /\ Silent
  \/ /\ cl[t] = "enter" /\ once = "done" /\ Bug # "noOnce"
     /\ cl' = [cl EXCEPT ![t] = "back"]
     /\ UNCHANGED <<rp, wp, cerr, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid, env>> /\ Silent
  \/ /\ cl[t] = "seterr"
     /\ closeErr' = (IF Bug = "errLate" THEN closeErr ELSE cerr[t]) /\ cl' = [cl EXCEPT ![t] = "rwc"]
     /\ UNCHANGED <<rp, wp, cerr, once, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid, env>> /\ Silent
  \/ /\ cl[t] = "rwc"
     /\ rwcClosed' = TRUE /\ cl' = [cl EXCEPT ![t] = "sig"] /\ Emit(Ev("rwcClose"))
     /\ UNCHANGED <<rp, wp, cerr, once, closeErr, sigC, lock, outC, bufN, bufErr, taken, wid, env>>
  \/ /\ cl[t] = "sig"
     /\ sigC' = TRUE /\ cl' = [cl EXCEPT ![t] = "lock"]
     /\ UNCHANGED <<rp, wp, cerr, once, closeErr, rwcClosed, lock, outC, bufN, bufErr, taken, wid, env>> /\ Silent
  \/ /\ cl[t] = "lock" /\ (lock = "" \/ Bug = "noLock")
     /\ lock' = t /\ cl' = [cl EXCEPT ![t] = "close"]
     /\ closeErr' = (IF Bug = "errLate" THEN cerr[t] ELSE closeErr)
     /\ UNCHANGED <<rp, wp, cerr, once, rwcClosed, sigC, outC, bufN, bufErr, taken, wid, env>> /\ Silent
  \/ /\ cl[t] = "close"
     /\ outC' = TRUE /\ lock' = "" /\ once' = "done" /\ cl' = [cl EXCEPT ![t] = "back"]
     /\ UNCHANGED <<rp, wp, cerr, closeErr, rwcClosed, sigC, bufN, bufErr, taken, wid, env>> /\ Silent

CloseOver(t) == cl[t] = "back" /\ cl' = [cl EXCEPT ![t] = "out"]

---------------------------------------------------------------------------
\* The read loop.

RClose(err) == Enter("R", err) /\ rp' = "closing"

RStep ==
  \/ /\ rp = "top"      \* select: context, closed, or go on
     /\ \/ ctxR /\ RClose(CtxR)
        \/ sigC /\ rp' = "ret" /\ UNCHANGED <<cl, cerr>>
        \/ ~(ctxR /\ Bug # "readFirst") /\ ~sigC /\ rp' = "frame" /\ UNCHANGED <<cl, cerr>>
     /\ UNCHANGED <<wp, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid, env>> /\ Silent
  \/ /\ rp = "frame" /\ bufN > 0
     /\ bufN' = bufN - 1 /\ taken' = taken + 1
     /\ rp' = IF cfg.logger = "none" \/ (Bug = "logSkip" /\ bufN > 1) THEN "lock" ELSE "log"
     /\ UNCHANGED <<wp, cl, cerr, once, closeErr, rwcClosed, sigC, lock, outC, bufErr, wid, env>> /\ Silent
  \/ /\ rp = "frame" /\ bufN = 0 /\ bufErr # ""
     /\ RClose(bufErr)
     /\ UNCHANGED <<wp, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid, env>> /\ Silent
  \/ /\ rp = "frame" /\ bufN = 0 /\ bufErr = ""
     /\ rp' = "reading" /\ Emit(Ev("rdCall"))
     /\ UNCHANGED <<wp, cl, cerr, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid, env>>
  \/ /\ rp = "reading" /\ pipe # <<>>
     /\ LET x == Head(pipe)
        IN  bufN' = bufN + x.n /\ bufErr' = x.err /\ pipe' = Tail(pipe)
            /\ Emit([e |-> "rdRet", n |-> x.n, err |-> x.err])
     /\ rp' = "frame"
     /\ UNCHANGED <<wp, cl, cerr, once, closeErr, rwcClosed, sigC, lock, outC, taken, wid>>
     /\ UNCHANGED <<cfg, half, inC, ctxR, ctxW, noteR, noteW, sp, sid, inQ, wgate, rlog, wlog, cons, cid, watch, werr, up>>
  \/ /\ rp = "reading" /\ rwcClosed      \* the transport releases its calls
     /\ bufErr' = "rerr" /\ rp' = "frame"
     /\ Emit([e |-> "rdRet", n |-> 0, err |-> "rerr"])
     /\ UNCHANGED <<wp, cl, cerr, once, closeErr, rwcClosed, sigC, lock, outC, bufN, taken, wid, env>>
  \/ /\ rp = "log"
     /\ rp' = "logging" /\ Emit([e |-> "logR", id |-> taken])
     /\ UNCHANGED <<wp, cl, cerr, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid, env>>
  \/ /\ rp = "logging" /\ (rlog \/ ~cfg.gated)
     /\ rp' = "lock" /\ rlog' = FALSE /\ Emit(Ev("logREnd"))
     /\ UNCHANGED <<wp, cl, cerr, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid>>
     /\ UNCHANGED <<cfg, pipe, half, inC, ctxR, ctxW, noteR, noteW, sp, sid, inQ, wgate, wlog, cons, cid, watch, werr, up>>
  \/ /\ rp = "lock" /\ lock = ""
     /\ lock' = "R" /\ rp' = "check"
     /\ UNCHANGED <<wp, cl, cerr, once, closeErr, rwcClosed, sigC, outC, bufN, bufErr, taken, wid, env>> /\ Silent
  \/ /\ rp = "check"
     /\ IF sigC THEN rp' = "top" /\ lock' = "" ELSE rp' = "send" /\ UNCHANGED lock
     /\ UNCHANGED <<wp, cl, cerr, once, closeErr, rwcClosed, sigC, outC, bufN, bufErr, taken, wid, env>> /\ Silent
  \/ /\ rp = "send" /\ (sigC \/ ctxR) /\ Bug # "deaf"
     /\ rp' = "top" /\ lock' = ""
     /\ UNCHANGED <<wp, cl, cerr, once, closeErr, rwcClosed, sigC, outC, bufN, bufErr, taken, wid, env>> /\ Silent
  \/ /\ rp = "send" /\ ~outC    \* rendezvous with a consumer
     /\ \E c \in Consumers : cons[c] = "wait" /\ cons' = [cons EXCEPT ![c] = "got"] /\ cid' = [cid EXCEPT ![c] = taken]
     /\ rp' = "top" /\ lock' = ""
     /\ UNCHANGED <<wp, cl, cerr, once, closeErr, rwcClosed, sigC, outC, bufN, bufErr, taken, wid>>
     /\ UNCHANGED <<cfg, pipe, half, inC, ctxR, ctxW, noteR, noteW, sp, sid, inQ, wgate, rlog, wlog, watch, werr, up>> /\ Silent
  \/ /\ rp = "closing" /\ CloseOver("R") /\ rp' = "ret"
     /\ UNCHANGED <<wp, cerr, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid, env>> /\ Silent
  \/ /\ rp = "ret"
     /\ rp' = "done" /\ Emit(Ev("retR"))
     /\ UNCHANGED <<wp, cl, cerr, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid, env>>

\* sending on the closed delivery channel would panic
NoPanic == rp = "send" => ~outC

---------------------------------------------------------------------------
\* The write loop.

WClose(err) == Enter("W", err) /\ wp' = "closing"

WStep ==
  \/ /\ wp = "top"
     /\ \/ ctxW /\ WClose(CtxW) /\ UNCHANGED <<sp, inQ, wid>>
        \/ sigC /\ Bug # "wDeaf" /\ wp' = "ret" /\ UNCHANGED <<cl, cerr, sp, inQ, wid>>
        \/ inC /\ sp # "wait" /\ (inQ = <<>> \/ Bug = "forget") /\ WClose(WClosed) /\ UNCHANGED <<sp, inQ, wid>>
        \/ /\ cfg.cap = 0 /\ sp = "wait"
           /\ sp' = "sent" /\ wid' = sid /\ wp' = "write" /\ UNCHANGED <<cl, cerr, inQ>>
        \/ /\ inQ # <<>>
           /\ wid' = (IF Bug = "newest" THEN Last(inQ) ELSE Head(inQ))
           /\ inQ' = (IF Bug = "newest" THEN Front(inQ) ELSE Tail(inQ))
           /\ wp' = "write" /\ UNCHANGED <<cl, cerr, sp>>
     /\ UNCHANGED <<rp, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken>>
     /\ UNCHANGED <<cfg, pipe, half, inC, ctxR, ctxW, noteR, noteW, sid, wgate, rlog, wlog, cons, cid, watch, werr, up>> /\ Silent
  \/ /\ wp = "write"
     /\ wp' = "writing" /\ Emit([e |-> "wrCall", id |-> wid])
     /\ UNCHANGED <<rp, cl, cerr, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid, env>>
  \/ /\ wp = "writing" /\ (wgate # "" \/ rwcClosed)
     /\ LET res == IF rwcClosed THEN "err" ELSE wgate
        IN  IF res = "ok"
            THEN /\ Emit([e |-> "wrRet", err |-> ""])
                 /\ wp' = (IF cfg.logger = "none" THEN "top" ELSE "log")
                 /\ UNCHANGED <<cl, cerr>>
            ELSE /\ Emit([e |-> "wrRet", err |-> WErr])
                 /\ IF Bug = "retry" THEN wp' = "write" /\ UNCHANGED <<cl, cerr>>
                    ELSE IF Bug = "keepOn" THEN wp' = "top" /\ UNCHANGED <<cl, cerr>>
                    ELSE WClose(WErr)
     /\ wgate' = ""
     /\ UNCHANGED <<rp, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid>>
     /\ UNCHANGED <<cfg, pipe, half, inC, ctxR, ctxW, noteR, noteW, sp, sid, inQ, rlog, wlog, cons, cid, watch, werr, up>>
  \/ /\ wp = "log"
     /\ wp' = "logging" /\ Emit([e |-> "logW", id |-> wid])
     /\ UNCHANGED <<rp, cl, cerr, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid, env>>
  \/ /\ wp = "logging" /\ (wlog \/ ~cfg.gated)
     /\ wp' = "top" /\ wlog' = FALSE /\ Emit(Ev("logWEnd"))
     /\ UNCHANGED <<rp, cl, cerr, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid>>
     /\ UNCHANGED <<cfg, pipe, half, inC, ctxR, ctxW, noteR, noteW, sp, sid, inQ, wgate, rlog, cons, cid, watch, werr, up>>
  \/ /\ wp = "closing" /\ CloseOver("W") /\ wp' = "ret"
     /\ UNCHANGED <<rp, cerr, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid, env>> /\ Silent
  \/ /\ wp = "ret"
     /\ wp' = "done" /\ Emit(Ev("retW"))
     /\ UNCHANGED <<rp, cl, cerr, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid, env>>

---------------------------------------------------------------------------
\* Followers: the environment notes what has happened to it.

Consumer(c) ==
  \/ /\ cons[c] = "got"
     /\ cons' = [cons EXCEPT ![c] = "idle"] /\ Emit([e |-> "recv", id |-> cid[c]])
  \/ /\ cons[c] = "wait" /\ outC
     /\ cons' = [cons EXCEPT ![c] = "closed"] /\ Silent
  \/ /\ cons[c] = "closed"
     /\ cons' = [cons EXCEPT ![c] = "idle"] /\ Emit([e |-> "recvClosed", err |-> closeErr])
Producer ==
  \/ sp = "wait" /\ Len(inQ) < cfg.cap /\ inQ' = Append(inQ, sid) /\ sp' = "sent" /\ Silent
  \/ sp = "sent" /\ sp' = "idle" /\ Emit([e |-> "acc", id |-> sid]) /\ UNCHANGED inQ
Watcher ==
  \/ watch = "wait" /\ sigC /\ watch' = "read" /\ werr' = closeErr /\ Silent
  \/ watch = "read" /\ watch' = "done" /\ Emit([e |-> "sawSig", err |-> werr]) /\ UNCHANGED werr
NoteR == noteR /\ noteR' = FALSE /\ ctxR' = TRUE /\ Emit(Ev("cancelRret"))
User1(u) ==
  \/ up[u] = "call" /\ cl[u] = "out" /\ Enter(u, User) /\ up' = [up EXCEPT ![u] = "in"] /\ Silent
  \/ up[u] = "in" /\ CloseOver(u) /\ up' = [up EXCEPT ![u] = "back"] /\ UNCHANGED cerr /\ Silent
  \/ up[u] = "back" /\ up' = [up EXCEPT ![u] = "idle"] /\ Emit(Ev("closeret")) /\ UNCHANGED <<cl, cerr>>
\* the cancellation itself happens some time between its call and its return
Cancels == \/ noteR /\ ~ctxR /\ ctxR' = TRUE /\ UNCHANGED ctxW
           \/ noteW /\ ~ctxW /\ ctxW' = TRUE /\ UNCHANGED ctxR

Follow ==
  \/ (\E c \in Consumers : Consumer(c)) /\ UNCHANGED <<lib, cfg, pipe, half, inC, ctxR, ctxW, noteR, noteW, sp, sid, inQ, wgate, rlog, wlog, cid, watch, werr, up>>
  \/ Producer /\ UNCHANGED <<lib, cfg, pipe, half, inC, ctxR, ctxW, noteR, noteW, sid, wgate, rlog, wlog, cons, cid, watch, werr, up>>
  \/ Watcher /\ UNCHANGED <<lib, cfg, pipe, half, inC, ctxR, ctxW, noteR, noteW, sp, sid, inQ, wgate, rlog, wlog, cons, cid, up>>
  \/ NoteR /\ UNCHANGED <<lib, cfg, pipe, half, inC, ctxW, noteW, sp, sid, inQ, wgate, rlog, wlog, cons, cid, watch, werr, up>>
  \/ Cancels /\ Silent /\ UNCHANGED <<lib, cfg, pipe, half, inC, noteR, noteW, sp, sid, inQ, wgate, rlog, wlog, cons, cid, watch, werr, up>>
  \/ \E u \in Users : User1(u)
       /\ UNCHANGED <<rp, wp, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid>>
       /\ UNCHANGED <<cfg, pipe, half, inC, ctxR, ctxW, noteR, noteW, sp, sid, inQ, wgate, rlog, wlog, cons, cid, watch, werr>>

Internal == RStep \/ WStep \/ (\E t \in Threads : CloseStep(t)) \/ Follow

---------------------------------------------------------------------------
\* Operations of the environment.

Fed == taken + bufN + FoldSeq(LAMBDA x, n : n + x.n, 0, pipe)
Ended == bufErr # "" \/ \E i \in 1..Len(pipe) : pipe[i].err # ""

Feed(n, err) == pipe' = Append(pipe, [n |-> n, err |-> err])

CanDo(o) ==
  CASE o = "startR"  -> rp = "no"
    [] o = "startW"  -> wp = "no"
    [] o = "cancelR" -> ~ctxR /\ ~noteR
    [] o = "cancelW" -> ~ctxW /\ ~noteW
    [] o \in {"close", "close2"} -> LET u == IF o = "close" THEN "U1" ELSE "U2" IN up[u] = "idle"
    [] o = "closeIn" -> ~inC /\ sp = "idle"
    [] o = "feed"    -> ~Ended /\ Fed < MaxFrames
    [] o = "feed2"   -> ~Ended /\ Fed + 2 <= MaxFrames
    [] o = "part"    -> ~Ended /\ Fed < MaxFrames /\ ~half
    [] o \in {"eof", "rerr"} -> ~Ended
    [] o = "feedEof" -> ~Ended /\ Fed < MaxFrames
    [] o \in {"recv", "recv2"} -> cons[IF o = "recv" THEN "C1" ELSE "C2"] = "idle"
    [] o = "send"    -> sp = "idle" /\ sid < MaxSends /\ ~inC
    [] o \in {"wrOk", "wrErr"} -> wp = "writing" /\ wgate = ""
    [] o = "logR"    -> rp = "logging" /\ cfg.gated /\ ~rlog
    [] o = "logW"    -> wp = "logging" /\ cfg.gated /\ ~wlog

Do(o) ==
  CASE o = "startR" -> rp' = "top" /\ Emit(Ev("startR"))
         /\ UNCHANGED <<wp, cl, cerr, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid, env>>
    [] o = "startW" -> wp' = "top" /\ Emit(Ev("startW"))
         /\ UNCHANGED <<rp, cl, cerr, once, closeErr, rwcClosed, sigC, lock, outC, bufN, bufErr, taken, wid, env>>
    [] o = "cancelR" -> noteR' = TRUE /\ Emit(Ev("cancelR"))
         /\ UNCHANGED <<lib, cfg, pipe, half, inC, ctxR, ctxW, noteW, sp, sid, inQ, wgate, rlog, wlog, cons, cid, watch, werr, up>>
    [] o = "cancelW" -> noteW' = TRUE /\ Emit(Ev("cancelW"))
         /\ UNCHANGED <<lib, cfg, pipe, half, inC, ctxR, ctxW, noteR, sp, sid, inQ, wgate, rlog, wlog, cons, cid, watch, werr, up>>
    [] o \in {"close", "close2"} ->
         LET u == IF o = "close" THEN "U1" ELSE "U2" IN up' = [up EXCEPT ![u] = "call"] /\ Emit(Ev("close"))
         /\ UNCHANGED <<lib, cfg, pipe, half, inC, ctxR, ctxW, noteR, noteW, sp, sid, inQ, wgate, rlog, wlog, cons, cid, watch, werr>>
    [] o = "closeIn" -> inC' = TRUE /\ Emit(Ev("closeIn"))
         /\ UNCHANGED <<lib, cfg, pipe, half, ctxR, ctxW, noteR, noteW, sp, sid, inQ, wgate, rlog, wlog, cons, cid, watch, werr, up>>
    [] o \in {"feed", "feed2", "part", "eof", "rerr", "feedEof"} ->
         /\ CASE o = "feed" -> Feed(1, "") /\ half' = FALSE
              [] o = "feed2" -> Feed(2, "") /\ half' = FALSE
              [] o = "part" -> Feed(0, "") /\ half' = TRUE
              [] o = "eof" -> Feed(0, "eof") /\ UNCHANGED half
              [] o = "rerr" -> Feed(0, "rerr") /\ UNCHANGED half
              [] o = "feedEof" -> Feed(1, "eof") /\ half' = FALSE
         /\ Silent
         /\ UNCHANGED <<lib, cfg, inC, ctxR, ctxW, noteR, noteW, sp, sid, inQ, wgate, rlog, wlog, cons, cid, watch, werr, up>>
    [] o \in {"recv", "recv2"} -> cons' = [cons EXCEPT ![IF o = "recv" THEN "C1" ELSE "C2"] = "wait"] /\ Emit(Ev("recvCall"))
         /\ UNCHANGED <<lib, cfg, pipe, half, inC, ctxR, ctxW, noteR, noteW, sp, sid, inQ, wgate, rlog, wlog, cid, watch, werr, up>>
    [] o = "send" -> sp' = "wait" /\ sid' = sid + 1 /\ Emit([e |-> "send", id |-> sid + 1])
         /\ UNCHANGED <<lib, cfg, pipe, half, inC, ctxR, ctxW, noteR, noteW, inQ, wgate, rlog, wlog, cons, cid, watch, werr, up>>
    [] o \in {"wrOk", "wrErr"} -> wgate' = (IF o = "wrOk" THEN "ok" ELSE "err") /\ Silent
         /\ UNCHANGED <<lib, cfg, pipe, half, inC, ctxR, ctxW, noteR, noteW, sp, sid, inQ, rlog, wlog, cons, cid, watch, werr, up>>
    [] o = "logR" -> rlog' = TRUE /\ Silent
         /\ UNCHANGED <<lib, cfg, pipe, half, inC, ctxR, ctxW, noteR, noteW, sp, sid, inQ, wgate, wlog, cons, cid, watch, werr, up>>
    [] o = "logW" -> wlog' = TRUE /\ Silent
         /\ UNCHANGED <<lib, cfg, pipe, half, inC, ctxR, ctxW, noteR, noteW, sp, sid, inQ, wgate, rlog, cons, cid, watch, werr, up>>

\* noteW is only a marker: cancelling the write context returns
AtEase == ~ENABLED Internal

Operate ==
  \E o \in Ops :
    /\ left > 0 /\ CanDo(o)
    /\ Batch > 0 => \/ AtEase /\ rested
                    \/ now # {} /\ Cardinality(now) < Batch /\ o \notin now
    /\ Do(o)
    /\ left' = left - 1
    /\ IF Batch = 0 THEN UNCHANGED <<now, ops>>
       ELSE IF AtEase /\ rested THEN now' = {o} /\ ops' = Append(ops, <<o>>)
       ELSE now' = now \cup {o} /\ ops' = [ops EXCEPT ![Len(ops)] = Append(@, o)]
    /\ rested' = FALSE

\* in batch mode, all operations of a batch are launched before anything else
Run == Internal /\ now' = (IF Batch > 0 THEN {} ELSE now) /\ UNCHANGED <<left, ops, rested>>

Rest == /\ AtEase /\ ~rested /\ rested' = TRUE /\ now' = {}
        /\ Emit([e |-> "rest", sig |-> sigC, out |-> outC, err |-> closeErr])
        /\ UNCHANGED <<lib, env, left, ops>>

Next == Operate \/ Run \/ Rest
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Run)

---------------------------------------------------------------------------
Good == bad = {} /\ NoPanic

\* what the acceptor sees agrees with what is the case
Faithful == /\ rwcClosed <=> a.rwc > 0
            /\ rp = "reading" => a.R = "read"
            /\ wp = "writing" => a.W = "write"

\* Whatever happens, once something closes the stream it winds down.
WindsDown == (once # "free") ~> (rp \in {"no", "done", "logging"} /\ wp \in {"no", "done", "logging"} /\ sigC /\ outC)
=============================================================================
