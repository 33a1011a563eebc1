------------------------------ MODULE StreamAbs ------------------------------
(***************************************************************************)
(* The life cycle of a frame stream as its users can observe it: an         *)
(* acceptor of event histories.                                             *)
(*                                                                          *)
(*   After(a, e)  the observer's state after event e                        *)
(*   Bad(a, e)    the properties event e violates in state a                *)
(*                                                                          *)
(* Both are total: whatever a stream does, every later event is still       *)
(* judged, and an event that violates one property is not held against the  *)
(* others.  The fine-grained model Stream.tla is checked to produce only    *)
(* histories without violation; TraceStream.tla judges recorded histories.  *)
(*                                                                          *)
(* Events (e.e is the name).  Every event is recorded by the environment of *)
(* the stream; "Call" is recorded before, "Ret" after the call.             *)
(*   startR startW            a loop is about to be called                  *)
(*   retR retW                a loop has returned                           *)
(*   cancelR cancelW [ret]    a loop's context is about to be (ret: has     *)
(*                            been) cancelled                               *)
(*   close [ret]              user closes                                   *)
(*   closeIn                  the write channel is about to be closed       *)
(*   rdCall, rdRet [n, err]   read of the transport; n: complete frames     *)
(*                            handed over by it; err: "" or the error       *)
(*   wrCall [id], wrRet [err] write of the transport; id: the frame whose   *)
(*                            bytes exactly it gets, 0 if none              *)
(*   rwcClose                 the transport is closed                       *)
(*   logR [id], logREnd, logW [id], logWEnd     the logger                  *)
(*   recvCall, recv [id], recvClosed [err]      the consumer; err: close    *)
(*                            error read after seeing the channel closed    *)
(*   send [id], acc [id], abort [id]   a producer starts to send, has sent, *)
(*                            gives up                                      *)
(*   sawSig [err]             close error read after seeing the signal      *)
(*   rest [sig, out, err]     the system has come to rest: closed signal,   *)
(*                            delivery channel closed, close error          *)
(*   stuck                    it hangs (no more events will come)           *)
(*   panic [who], race        something went wrong in the library           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CtxR == "canceled"      \* the error of the read loop's context
CtxW == "deadline"      \* the error of the write loop's context
User == "user"
WClosed == "wclosed"
WErr == "werr"
ReadErrs == {"eof", "ueof", "rerr"}

Start(cfg) ==
  [ cfg    |-> cfg,       \* [logger: "none","ok","err"; buffered: BOOLEAN]
    fired  |-> {},        \* causes of closing that have occurred
    old    |-> {},        \* of these, the ones that had occurred when it last was at rest
    R      |-> "no",      \* no, run, read, log, done
    W      |-> "no",      \* no, run, write, log, done
    wakeR  |-> FALSE,     \* since the last rest, the loop was called back (or started)
    wakeW  |-> FALSE,
    rwc    |-> 0,         \* closes of the transport
    causes |-> {},        \* what may have closed the stream, once it has closed the transport
    err    |-> "",        \* the close error, once seen
    sig    |-> FALSE,     \* closed signal seen
    out    |-> FALSE,     \* delivery channel seen closed
    frames |-> 0,         \* complete frames the transport has handed over
    cancelAt |-> 0 - 1,   \* frames at the time the read context had been cancelled
    lr     |-> <<>>,      \* frames logged as read
    rcv    |-> <<>>,      \* frames received
    recvs  |-> 0,         \* consumers waiting
    sent   |-> {},        \* frames producers have tried to send
    pend   |-> {},        \* sends in progress
    accd   |-> {},        \* frames accepted
    clean  |-> {},        \* of these, the ones accepted before anything closed the stream
    before |-> <<>>,      \* per frame: frames accepted, unwritten when it was sent
    wr     |-> <<>>,      \* frames passed to the transport
    ok     |-> <<>>,      \* frames written successfully
    wfail  |-> FALSE,
    lw     |-> <<>> ]     \* frames logged as written

Fire(a, c) == [a EXCEPT !.fired = @ \cup {c}]

Written(a) == { a.wr[i] : i \in 1..Len(a.wr) }
Unwritten(a) == a.accd \ Written(a)

\* A cause can have closed the stream if it occurred since the system last was
\* at rest, or if a loop that had not noticed it was called back since.
CanCause(a, c) ==
    /\ c \in a.fired
    /\ c = CtxR => a.R # "no"
    /\ c \in {CtxW, WClosed} => a.W # "no"
    /\ \/ c \notin a.old
       \/ c \in {CtxR} \cup ReadErrs /\ a.wakeR
       \/ c \in {CtxW, WClosed} /\ a.wakeW
Causes(a) == IF a.rwc > 0 THEN a.causes ELSE { c \in a.fired : CanCause(a, c) }

\* frames in the read loop's hands or in its buffer
Undelivered(a) == a.frames - Len(a.rcv)

\* At rest, something must have been noticed.
MustBeClosed(a) ==
    \/ User \in a.fired
    \/ WErr \in a.fired /\ a.W # "log"
    \/ a.fired \cap ReadErrs # {} /\ a.R # "log" /\ Undelivered(a) <= 0
    \/ CtxW \in a.fired /\ a.W = "run"
    \/ WClosed \in a.fired /\ a.W = "run"
    \/ CtxR \in a.fired /\ a.R = "run"
    \/ CtxR \in a.fired /\ a.R = "read" /\ a.frames > a.cancelAt
    \* a frame was waiting for a consumer, and the loop reads on
    \/ CtxR \in a.fired /\ a.R = "read" /\ Undelivered(a) > 0

\* ... because the transport failed
MustHaveFailed(a) ==
    \/ WErr \in a.fired /\ a.W # "log"
    \/ a.fired \cap ReadErrs # {} /\ a.R # "log" /\ Undelivered(a) <= 0

---------------------------------------------------------------------------
After(a, e) ==
    CASE e.e = "startR"  -> [a EXCEPT !.R = "run", !.wakeR = TRUE,
                                      \* started with a cancelled context: nothing may be read
                                      !.cancelAt = IF @ >= 0 THEN a.frames - 1 ELSE @]
      [] e.e = "startW"  -> [a EXCEPT !.W = "run", !.wakeW = TRUE]
      [] e.e = "retR"    -> [a EXCEPT !.R = "done"]
      [] e.e = "retW"    -> [a EXCEPT !.W = "done"]
      [] e.e = "cancelR" -> Fire(a, CtxR)
      [] e.e = "cancelRret" -> [a EXCEPT !.cancelAt = a.frames - (IF a.R = "no" THEN 1 ELSE 0)]
      [] e.e = "cancelW" -> Fire(a, CtxW)
      [] e.e = "close"   -> Fire(a, User)
      [] e.e = "closeIn" -> Fire(a, WClosed)
      [] e.e = "rdCall"  -> [a EXCEPT !.R = "read"]
      [] e.e = "rdRet"   -> LET b == [a EXCEPT !.R = "run", !.wakeR = TRUE, !.frames = @ + e.n]
                            IN  CASE e.err = "" \/ a.rwc > 0 -> b
                                  [] e.err = "eof" -> Fire(Fire(b, "eof"), "ueof")
                                  [] OTHER -> Fire(b, e.err)
      [] e.e = "wrCall"  -> [a EXCEPT !.W = "write", !.wr = Append(@, e.id)]
      [] e.e = "wrRet"   -> LET b == [a EXCEPT !.W = "run", !.wakeW = TRUE]
                            IN  CASE e.err = "" -> [b EXCEPT !.ok = IF a.wr = <<>> THEN @ ELSE Append(@, a.wr[Len(a.wr)])]
                                  [] a.rwc > 0 -> [b EXCEPT !.wfail = TRUE]
                                  [] OTHER -> Fire([b EXCEPT !.wfail = TRUE], e.err)
      [] e.e = "rwcClose" -> [a EXCEPT !.rwc = @ + 1, !.causes = Causes(a)]
      [] e.e = "logR"    -> [a EXCEPT !.R = "log", !.lr = Append(@, e.id)]
      [] e.e = "logREnd" -> [a EXCEPT !.R = "run", !.wakeR = TRUE]
      [] e.e = "logW"    -> [a EXCEPT !.W = "log", !.lw = Append(@, e.id)]
      [] e.e = "logWEnd" -> [a EXCEPT !.W = "run", !.wakeW = TRUE]
      [] e.e = "recvCall" -> [a EXCEPT !.recvs = @ + 1, !.wakeR = TRUE]
      [] e.e = "recv"    -> [a EXCEPT !.recvs = @ - 1, !.rcv = Append(@, e.id)]
      [] e.e = "recvClosed" -> [a EXCEPT !.recvs = @ - 1, !.out = TRUE, !.err = IF @ = "" THEN e.err ELSE @]
      [] e.e = "send"    -> [a EXCEPT !.sent = @ \cup {e.id}, !.pend = @ \cup {e.id},
                                      !.before = Append(@, [id |-> e.id, b |-> Unwritten(a)])]
      [] e.e = "acc"     -> [a EXCEPT !.accd = @ \cup {e.id}, !.pend = @ \ {e.id}]
      [] e.e = "abort"   -> [a EXCEPT !.pend = @ \ {e.id}]
      [] e.e = "sawSig"  -> [a EXCEPT !.sig = TRUE, !.err = IF @ = "" THEN e.err ELSE @]
      [] e.e = "rest"    -> [a EXCEPT !.old = a.fired, !.wakeR = FALSE, !.wakeW = FALSE,
                                      !.sig = @ \/ e.sig, !.out = @ \/ e.out,
                                      !.err = IF @ = "" THEN e.err ELSE @,
                                      !.clean = IF a.fired = {} THEN a.accd ELSE @]
      [] e.e = "panic"   -> CASE e.who = "R" -> [a EXCEPT !.R = "done"]
                              [] e.who = "W" -> [a EXCEPT !.W = "done"]
                              [] OTHER -> a
      [] OTHER -> a

---------------------------------------------------------------------------
V(p, cond) == IF cond THEN {} ELSE {p}

\* a close error seen after seeing that the stream is closed
SeenErr(a, err) ==
    V("C08", err # "" /\ err \in Causes(a) /\ (a.err # "" => err = a.err))

LoopsBack(a) ==
    /\ a.R \in {"no", "done", "log"}
    /\ a.W \in {"no", "done", "log"}
    /\ a.recvs = 0

AtRest(a, e) ==
    LET closed == e.sig \/ a.sig \/ MustBeClosed(a)
        idleW  == a.W = "run" /\ ~closed
    IN  \* closing is complete, and never happens without a cause
        V("C06", closed => e.sig /\ e.out /\ a.rwc = 1)
        \cup V("C06", e.sig \/ e.out \/ a.rwc > 0 => a.fired # {})
        \cup V("C10", a.cfg.logger = "err" /\ e.sig => a.fired # {})
        \* both loops are back and nobody waits
        \cup V("C07", closed => e.sig /\ LoopsBack(a))
        \cup V("C08", IF e.sig THEN e.err # "" /\ e.err \in Causes(a) ELSE e.err = "")
        \cup V("C08", a.err # "" => e.err = a.err)
        \cup V("C08", MustHaveFailed(a) => e.err # "")
        \* what was accepted has been written, unless a write is in progress
        \cup V("C09", idleW => Unwritten(a) = {})
        \* the write loop has seen the end of the write channel: there is nothing before it
        \cup V("C09", e.err = WClosed => Unwritten(a) = {})
        \cup V("C09", ~a.cfg.buffered /\ closed /\ a.W # "log" =>
                        /\ a.clean \subseteq Written(a)
                        /\ Cardinality(Unwritten(a)) <= 1)
        \cup (IF a.cfg.logger = "none" THEN {}
              ELSE V("C10", Len(a.lr) - Len(a.rcv) <= 1)
                   \cup V("C10", a.W \in {"run", "done"} => a.lw = a.ok))
        \* an open stream waits for its transport, its logger or its consumer only
        \cup V("C28", a.R = "run" /\ ~closed => Undelivered(a) > 0 /\ a.recvs = 0)
        \* an erroring logger does not make frames disappear
        \cup V("C10", a.cfg.logger = "err" /\ a.recvs > 0 /\ a.R = "read" /\ ~closed => Undelivered(a) <= 0)

Bad(a, e) ==
    CASE e.e \in {"panic", "race"} -> {"C06"}
      [] e.e = "rwcClose" -> V("C06", a.rwc = 0 /\ a.fired # {})
      [] e.e = "sawSig" -> V("C06", a.fired # {}) \cup SeenErr(a, e.err)
      [] e.e = "recvClosed" -> V("C06", a.fired # {}) \cup SeenErr(a, e.err)
      [] e.e = "wrCall" ->
           V("C09", /\ e.id \in a.sent \ Written(a)
                    /\ a.W # "write" /\ ~a.wfail
                    /\ \A i \in 1..Len(a.before) :
                         a.before[i].id = e.id => a.before[i].b \subseteq Written(a)
                                                  \/ a.fired # {})
      [] e.e = "logR" ->
           V("C10", e.id = Len(a.lr) + 1 /\ a.cfg.logger # "none")
      [] e.e = "recv" ->
           \* in order, but consumers that wait at the same time may note it in any order
           V("C10", /\ e.id \in 1..(Len(a.rcv) + a.recvs)
                    /\ ~\E i \in 1..Len(a.rcv) : a.rcv[i] = e.id
                    /\ Cardinality({ i \in 1..e.id - 1 : ~\E k \in 1..Len(a.rcv) : a.rcv[k] = i }) < a.recvs
                    /\ a.cfg.logger # "none" => e.id <= Len(a.lr) /\ a.lr[e.id] = e.id)
      [] e.e = "logW" ->
           V("C10", Len(a.lw) < Len(a.ok) /\ a.ok[Len(a.lw) + 1] = e.id)
      [] e.e = "rest" -> AtRest(a, e)
      [] e.e = "stuck" ->
           V("C06", MustBeClosed(a) \/ a.sig => a.sig /\ a.rwc = 1)
           \cup V("C07", MustBeClosed(a) \/ a.sig => a.sig /\ LoopsBack(a))
      [] OTHER -> {}
=============================================================================
