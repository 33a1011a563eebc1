-------------------------------- MODULE Many --------------------------------
(***************************************************************************)
(* Several streams in one process.  Each is judged by an observer of its    *)
(* own (StreamAbs) as if it were the only one; so what they share (Bug:     *)
(* the buffer, the delivery lock, the once of closing, the close error, the *)
(* logger) shows as a violation of one of them.                             *)
(*                                                                          *)
(* The streams are those of Stream.tla, with frames that arrive in halves,  *)
(* but with one consumer, no contexts, and an unbuffered write channel.     *)
(* Sides says which loops run.                                              *)
(***************************************************************************)
EXTENDS StreamAbs, TLC

CONSTANTS Streams, Budget, MaxFrames, Sides,
          Bug      \* "" or what the streams share: buffer, lock, once, err, logger, turn

VARIABLES st,      \* per stream [rp, cp, err, pipe, half, hand, bErr, sig, out, once, cons, cid, up, fed, mid, watch, werr]
          sh,      \* what is shared by mistake [half, lock, once, err, last, turn]
          lock,    \* per stream: holder of the delivery lock
          left, rested, a, bad
vars == <<st, sh, lock, left, rested, a, bad>>

Ev(n) == [e |-> n]
Emit(s, e) == a' = [a EXCEPT ![s] = After(a[s], e)] /\ bad' = bad \cup Bad(a[s], e)
Silent == UNCHANGED <<a, bad>>
Set(s, r) == st' = [st EXCEPT ![s] = r]

Threads == {"R", "W", "U"}
None == [s |-> 0, k |-> 0]
Started ==
  LET x == Start([logger |-> "ok", buffered |-> FALSE])
      y == IF "R" \in Sides THEN After(x, Ev("startR")) ELSE x
  IN  IF "W" \in Sides THEN After(y, Ev("startW")) ELSE y
Init ==
  /\ st = [s \in Streams |->
             [rp |-> IF "R" \in Sides THEN "top" ELSE "off", cp |-> [t \in Threads |-> "out"], cerr |-> [t \in Threads |-> ""],
              err |-> "", pipe |-> <<>>, half |-> None, hand |-> 0, ready |-> 0, bErr |-> "",
              rwc |-> FALSE, sig |-> FALSE, out |-> FALSE, once |-> "free",
              cons |-> "idle", cid |-> 0, up |-> "idle", fed |-> 0, mid |-> FALSE, got |-> 0, ended |-> FALSE,
              watch |-> "wait", werr |-> "",
              wp |-> IF "W" \in Sides THEN "idle" ELSE "off", prod |-> "idle", sent |-> 0, wid |-> 0, rel |-> ""]]
  /\ sh = [half |-> None, lock |-> 0, once |-> "free", err |-> "", last |-> 0, turn |-> 0]
  /\ lock = [s \in Streams |-> ""]
  /\ left = Budget /\ rested = FALSE
  /\ a = [s \in Streams |-> Started]
  /\ bad = {}

Half(s) == IF Bug = "buffer" THEN sh.half ELSE st[s].half
Once(s) == IF Bug = "once" THEN sh.once ELSE st[s].once
Err(s) == IF Bug = "err" THEN sh.err ELSE st[s].err
LockFree(s) == IF Bug = "lock" THEN sh.lock = 0 ELSE lock[s] = ""
Lock(s, t) == IF Bug = "lock" THEN sh' = [sh EXCEPT !.lock = s] /\ UNCHANGED lock
              ELSE lock' = [lock EXCEPT ![s] = t] /\ UNCHANGED sh
Unlock(s) == IF Bug = "lock" THEN sh' = [sh EXCEPT !.lock = 0] /\ UNCHANGED lock
             ELSE lock' = [lock EXCEPT ![s] = ""] /\ UNCHANGED sh

---------------------------------------------------------------------------
\* closing, by thread t

CloseStep(s, t) ==
  LET x == st[s]
      to(c) == [x EXCEPT !.cp[t] = c]
  IN  \/ /\ x.cp[t] = "enter" /\ Once(s) = "free"
         /\ IF Bug = "once" THEN sh' = [sh EXCEPT !.once = "done"] /\ Set(s, to("err"))
            ELSE UNCHANGED sh /\ Set(s, [to("err") EXCEPT !.once = "busy"])
         /\ UNCHANGED lock /\ Silent
      \/ /\ x.cp[t] = "enter" /\ Once(s) = "done"
         /\ Set(s, to("back")) /\ UNCHANGED <<sh, lock>> /\ Silent
      \/ /\ x.cp[t] = "err"
         /\ IF Bug = "err" THEN sh' = [sh EXCEPT !.err = x.cerr[t]] /\ Set(s, to("rwc"))
            ELSE UNCHANGED sh /\ Set(s, [to("rwc") EXCEPT !.err = x.cerr[t]])
         /\ UNCHANGED lock /\ Silent
      \/ /\ x.cp[t] = "rwc"
         /\ Set(s, [to("lock") EXCEPT !.rwc = TRUE, !.sig = TRUE]) /\ UNCHANGED <<sh, lock>> /\ Emit(s, Ev("rwcClose"))
      \/ /\ x.cp[t] = "lock" /\ LockFree(s)
         /\ Set(s, to("close")) /\ Lock(s, t) /\ Silent
      \/ /\ x.cp[t] = "close"
         /\ Set(s, [to("back") EXCEPT !.out = TRUE, !.once = "done"]) /\ Unlock(s) /\ Silent

---------------------------------------------------------------------------
\* the read loop

Logged(s) == IF Bug = "logger" THEN sh.last ELSE s
RStep(s) ==
  LET x == st[s]
      go(p) == [x EXCEPT !.rp = p]
  IN  \/ /\ x.rp = "top"
         /\ CASE x.sig -> Set(s, go("ret")) /\ Silent /\ UNCHANGED sh
              [] ~x.sig /\ x.ready # 0 ->
                   Set(s, [go("log") EXCEPT !.hand = x.ready, !.ready = 0]) /\ Silent /\ UNCHANGED sh
              [] ~x.sig /\ x.ready = 0 /\ x.bErr # "" ->
                   Set(s, [go("closing") EXCEPT !.cp["R"] = "enter", !.cerr["R"] = x.bErr]) /\ Silent /\ UNCHANGED sh
              [] OTHER -> Set(s, go("reading")) /\ Emit(s, Ev("rdCall")) /\ UNCHANGED sh
         /\ UNCHANGED lock
      \/ /\ x.rp = "reading" /\ x.pipe # <<>>
         /\ LET p == Head(x.pipe)
                y == [go("top") EXCEPT !.pipe = Tail(@)]
            IN  CASE p.err # "" -> /\ Set(s, [y EXCEPT !.bErr = p.err]) /\ UNCHANGED sh
                                   /\ Emit(s, [e |-> "rdRet", n |-> 0, err |-> p.err])
                  [] p.err = "" /\ ~p.last ->
                       /\ IF Bug = "buffer" THEN sh' = [sh EXCEPT !.half = [s |-> s, k |-> p.k]] /\ Set(s, y)
                          ELSE UNCHANGED sh /\ Set(s, [y EXCEPT !.half = [s |-> s, k |-> p.k]])
                       /\ Emit(s, [e |-> "rdRet", n |-> 0, err |-> ""])
                  [] OTHER ->
                       /\ Set(s, [y EXCEPT !.ready = IF Half(s) = [s |-> s, k |-> p.k] THEN p.k ELSE 99]) /\ UNCHANGED sh
                       /\ Emit(s, [e |-> "rdRet", n |-> 1, err |-> ""])
         /\ UNCHANGED lock
      \/ /\ x.rp = "reading" /\ x.rwc
         /\ Set(s, [go("top") EXCEPT !.bErr = "rerr"]) /\ Emit(s, [e |-> "rdRet", n |-> 0, err |-> "rerr"])
         /\ UNCHANGED <<sh, lock>>
      \/ /\ x.rp = "log"
         /\ Set(s, go("logged")) /\ sh' = [sh EXCEPT !.last = s]
         /\ LET o == IF Bug = "logger" /\ sh.last # 0 THEN sh.last ELSE s
            IN  Emit(o, [e |-> "logR", id |-> IF o = s THEN x.hand ELSE 0])
         /\ UNCHANGED lock
      \/ /\ x.rp = "logged" /\ Set(s, go("lock")) /\ Emit(s, Ev("logREnd")) /\ UNCHANGED <<sh, lock>>
      \/ /\ x.rp = "lock" /\ LockFree(s) /\ Lock(s, "R") /\ Set(s, go("send")) /\ Silent
      \/ /\ x.rp = "send" /\ (x.sig \/ x.out)
         /\ Set(s, go("top")) /\ Unlock(s) /\ Silent
      \/ /\ x.rp = "send" /\ ~x.sig /\ x.cons = "wait"
         /\ Set(s, [go("top") EXCEPT !.cons = "got", !.cid = x.hand]) /\ Unlock(s) /\ Silent
      \/ /\ x.rp = "closing" /\ x.cp["R"] = "back"
         /\ Set(s, [go("ret") EXCEPT !.cp["R"] = "out"]) /\ UNCHANGED <<sh, lock>> /\ Silent
      \/ /\ x.rp = "ret" /\ Set(s, go("done")) /\ Emit(s, Ev("retR")) /\ UNCHANGED <<sh, lock>>

---------------------------------------------------------------------------
\* the write loop

WStep(s) ==
  LET x == st[s]
      go(p) == [x EXCEPT !.wp = p]
  IN  \/ /\ x.wp = "idle" /\ x.sig
         /\ Set(s, go("ret")) /\ Silent /\ UNCHANGED sh
      \/ /\ x.wp = "idle" /\ x.prod = "send"
         /\ Set(s, [go("turn") EXCEPT !.prod = "taken", !.wid = x.sent]) /\ Silent /\ UNCHANGED sh
      \/ /\ x.wp = "turn" /\ (Bug = "turn" => sh.turn = 0)
         /\ sh' = [sh EXCEPT !.turn = s]
         /\ Set(s, go("write")) /\ Emit(s, [e |-> "wrCall", id |-> x.wid])
      \/ /\ x.wp = "write" /\ (x.rel # "" \/ x.rwc)
         /\ sh' = [sh EXCEPT !.turn = 0]
         /\ IF x.rel = "ok" THEN Set(s, [go("log") EXCEPT !.rel = ""]) /\ Emit(s, [e |-> "wrRet", err |-> ""])
            ELSE Set(s, [go("closing") EXCEPT !.cp["W"] = "enter", !.cerr["W"] = WErr, !.rel = ""])
                 /\ Emit(s, [e |-> "wrRet", err |-> WErr])
      \/ /\ x.wp = "log" /\ Set(s, go("logged")) /\ Emit(s, [e |-> "logW", id |-> x.wid]) /\ UNCHANGED sh
      \/ /\ x.wp = "logged" /\ Set(s, go("idle")) /\ Emit(s, Ev("logWEnd")) /\ UNCHANGED sh
      \/ /\ x.wp = "closing" /\ x.cp["W"] = "back"
         /\ Set(s, [go("ret") EXCEPT !.cp["W"] = "out"]) /\ Silent /\ UNCHANGED sh
      \/ /\ x.wp = "ret" /\ Set(s, go("done")) /\ Emit(s, Ev("retW")) /\ UNCHANGED sh

\* consumers and users
Follow(s) ==
  LET x == st[s]
  IN  /\ UNCHANGED <<sh, lock>>
      /\ \/ x.cons = "got" /\ Set(s, [x EXCEPT !.cons = "idle"]) /\ Emit(s, [e |-> "recv", id |-> x.cid])
         \/ x.cons = "wait" /\ x.out /\ Set(s, [x EXCEPT !.cons = "idle"]) /\ Emit(s, [e |-> "recvClosed", err |-> Err(s)])
         \/ x.watch = "wait" /\ x.sig /\ Set(s, [x EXCEPT !.watch = "read", !.werr = Err(s)]) /\ Silent
         \/ x.watch = "read" /\ Set(s, [x EXCEPT !.watch = "done"]) /\ Emit(s, [e |-> "sawSig", err |-> x.werr])
         \/ x.prod = "taken" /\ Set(s, [x EXCEPT !.prod = "idle"]) /\ Emit(s, [e |-> "acc", id |-> x.sent])
         \/ x.up = "call" /\ x.cp["U"] = "out"
            /\ Set(s, [x EXCEPT !.up = "in", !.cp["U"] = "enter", !.cerr["U"] = User]) /\ Silent
         \/ x.up = "in" /\ x.cp["U"] = "back"
            /\ Set(s, [x EXCEPT !.up = "idle", !.cp["U"] = "out"]) /\ Emit(s, Ev("closeret"))

Internal == \E s \in Streams : \/ RStep(s)
                               \/ WStep(s) /\ UNCHANGED lock
                               \/ Follow(s)
                               \/ \E t \in Threads : CloseStep(s, t)

---------------------------------------------------------------------------
\* the environment

Operate ==
  /\ left > 0 /\ left' = left - 1 /\ rested' = FALSE /\ UNCHANGED <<sh, lock>>
  /\ \E s \in Streams :
       LET x == st[s]
       IN  \/ /\ "R" \in Sides /\ ~x.ended /\ x.fed < MaxFrames /\ ~x.mid
              /\ Set(s, [x EXCEPT !.mid = TRUE, !.fed = @ + 1, !.pipe = Append(@, [k |-> x.fed + 1, last |-> FALSE, err |-> ""])]) /\ Silent
           \/ /\ "R" \in Sides /\ ~x.ended /\ x.mid
              /\ Set(s, [x EXCEPT !.mid = FALSE, !.pipe = Append(@, [k |-> x.fed, last |-> TRUE, err |-> ""])]) /\ Silent
           \/ /\ "R" \in Sides /\ ~x.ended
              /\ Set(s, [x EXCEPT !.ended = TRUE, !.pipe = Append(@, [k |-> 0, last |-> FALSE, err |-> "rerr"])]) /\ Silent
           \/ /\ "R" \in Sides /\ x.cons = "idle" /\ Set(s, [x EXCEPT !.cons = "wait"]) /\ Emit(s, Ev("recvCall"))
           \/ /\ "W" \in Sides /\ x.prod = "idle" /\ x.sent < MaxFrames
              /\ Set(s, [x EXCEPT !.prod = "send", !.sent = @ + 1]) /\ Emit(s, [e |-> "send", id |-> x.sent + 1])
           \/ /\ x.wp = "write" /\ x.rel = ""
              /\ \E o \in {"ok", "err"} : Set(s, [x EXCEPT !.rel = o]) /\ Silent
           \/ /\ x.up = "idle" /\ Set(s, [x EXCEPT !.up = "call"]) /\ Emit(s, Ev("close"))

Run == Internal /\ UNCHANGED <<left, rested>>
RestOf(s) == [e |-> "rest", sig |-> st[s].sig, out |-> st[s].out, err |-> Err(s)]
Rest == /\ ~ENABLED Internal /\ ~rested /\ rested' = TRUE
        /\ a' = [s \in Streams |-> After(a[s], RestOf(s))]
        /\ bad' = bad \cup UNION { Bad(a[s], RestOf(s)) : s \in Streams }
        /\ UNCHANGED <<st, sh, lock, left>>

Next == Operate \/ Run \/ Rest
Spec == Init /\ [][Next]_vars
Good == bad = {}
=============================================================================
