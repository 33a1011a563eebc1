--------------------------------- MODULE Udp ---------------------------------
(***************************************************************************)
(* The UDP endpoint as it is built, in all interleavings: reads wait for    *)
(* the socket without holding the lock and take it to remember the first    *)
(* sender; writes hold it while they look up the peer and send; close just  *)
(* closes the socket.  Emits its events into the acceptor UdpAbs.           *)
(***************************************************************************)
EXTENDS UdpAbs, SequencesExt, TLC

CONSTANTS Budget, Batch, Ops, Readers, Writers, Bug

VARIABLES rp, rd,      \* readers: program counter, what they got
          wp, wk,      \* writers: program counter, number of the write
          cp,          \* closer
          sock,        \* datagrams in the socket
          refusing,    \* the next send is refused
          closedS, lock, peer,
          nid, nk,     \* counters
          left, now, ops, rested, a, bad

lib == <<rp, rd, wp, wk, cp, sock, refusing, closedS, lock, peer>>
vars == <<lib, nid, nk, left, now, ops, rested, a, bad>>
Emit(e) == a' = After(a, e) /\ bad' = bad \cup Bad(a, e)
Silent == UNCHANGED <<a, bad>>
Ev(n) == [e |-> n]
None == [id |-> 0, p |-> "", bad |-> FALSE]

Init == /\ rp = [x \in Readers |-> "idle"] /\ rd = [x \in Readers |-> [k |-> 0, d |-> None, err |-> ""]]
        /\ wp = [x \in Writers |-> "idle"] /\ wk = [x \in Writers |-> [k |-> 0, err |-> ""]]
        /\ cp = "idle" /\ sock = <<>> /\ refusing = FALSE /\ closedS = FALSE /\ lock = "" /\ peer = ""
        /\ nid = 0 /\ nk = 0 /\ left = Budget /\ now = {} /\ ops = <<>> /\ rested = FALSE
        /\ a = Start /\ bad = {}

RStep(x) ==
  \/ /\ rp[x] = "call" /\ (Bug = "lockRead" => lock = "")
     /\ rp' = [rp EXCEPT ![x] = "wait"] /\ lock' = (IF Bug = "lockRead" THEN x ELSE lock)
     /\ Silent /\ UNCHANGED <<rd, sock, peer>>
  \/ /\ rp[x] = "wait" /\ sock # <<>> /\ ~closedS
     /\ LET d == Head(sock)
        IN  rd' = [rd EXCEPT ![x] = [@ EXCEPT !.d = d, !.err = IF d.bad THEN "rfail" ELSE ""]]
     /\ sock' = Tail(sock)
     /\ rp' = [rp EXCEPT ![x] = IF Head(sock).bad /\ Bug # "setOnFail" THEN "back" ELSE "lock"]
     /\ Silent /\ UNCHANGED <<lock, peer>>
  \/ /\ rp[x] = "wait" /\ closedS
     /\ rd' = [rd EXCEPT ![x] = [@ EXCEPT !.err = "closed"]] /\ rp' = [rp EXCEPT ![x] = "back"]
     /\ Silent /\ UNCHANGED <<sock, lock, peer>>
  \/ /\ rp[x] = "lock" /\ lock \in {"", IF Bug = "lockRead" THEN x ELSE ""}
     /\ lock' = x /\ rp' = [rp EXCEPT ![x] = "set"] /\ Silent /\ UNCHANGED <<rd, sock, peer>>
  \/ /\ rp[x] = "set"
     /\ peer' = (IF peer = "" \/ Bug = "lastSender" THEN rd[x].d.p ELSE peer)
     /\ lock' = "" /\ rp' = [rp EXCEPT ![x] = "back"] /\ Silent /\ UNCHANGED <<rd, sock>>
  \/ /\ rp[x] = "back"
     /\ Emit([e |-> "rdRet", k |-> rd[x].k, id |-> rd[x].d.id, err |-> rd[x].err])
     /\ rp' = [rp EXCEPT ![x] = "idle"] /\ rd' = [rd EXCEPT ![x] = [k |-> 0, d |-> None, err |-> ""]]
     /\ lock' = (IF lock = x THEN "" ELSE lock)
     /\ UNCHANGED <<sock, peer>>

WStep(x) ==
  \/ /\ wp[x] = "call" /\ lock = "" /\ lock' = x
     /\ IF peer = "" THEN wk' = [wk EXCEPT ![x] = [@ EXCEPT !.err = "noaddr"]] /\ wp' = [wp EXCEPT ![x] = "unlock"]
        ELSE wp' = [wp EXCEPT ![x] = "send"] /\ UNCHANGED wk
     /\ Silent /\ UNCHANGED <<refusing>>
  \/ /\ wp[x] = "send" /\ wp' = [wp EXCEPT ![x] = "unlock"]
     /\ IF closedS THEN wk' = [wk EXCEPT ![x] = [@ EXCEPT !.err = "closed"]] /\ Silent /\ UNCHANGED refusing
        ELSE IF refusing THEN /\ wk' = [wk EXCEPT ![x] = [@ EXCEPT !.err = "wfail"]] /\ refusing' = FALSE
                              /\ Emit([e |-> "refuse", k |-> wk[x].k])
        ELSE Emit([e |-> "out", k |-> wk[x].k, p |-> peer]) /\ UNCHANGED <<wk, refusing>>
     /\ UNCHANGED lock
  \/ /\ wp[x] = "unlock" /\ lock' = "" /\ wp' = [wp EXCEPT ![x] = "back"] /\ Silent /\ UNCHANGED <<wk, refusing>>
  \/ /\ wp[x] = "back"
     /\ Emit([e |-> "wrRet", k |-> wk[x].k, err |-> IF Bug = "mute" THEN "" ELSE wk[x].err, full |-> TRUE])
     /\ wp' = [wp EXCEPT ![x] = "idle"] /\ wk' = [wk EXCEPT ![x] = [k |-> 0, err |-> ""]] /\ UNCHANGED <<lock, refusing>>

CStep ==
  \/ /\ cp = "call" /\ (Bug = "lockClose" => lock = "")
     /\ closedS' = TRUE /\ cp' = "back" /\ Silent
  \/ /\ cp = "back" /\ cp' = "idle" /\ Emit(Ev("closeRet")) /\ UNCHANGED closedS

Internal ==
  \/ \E x \in Readers : RStep(x) /\ UNCHANGED <<wp, wk, cp, refusing, closedS>>
  \/ \E x \in Writers : WStep(x) /\ UNCHANGED <<rp, rd, cp, sock, closedS, peer>>
  \/ CStep /\ UNCHANGED <<rp, rd, wp, wk, sock, refusing, lock, peer>>

CanDo(o) == CASE o \in Readers -> rp[o] = "idle"
              [] o \in Writers -> wp[o] = "idle"
              [] o = "close" -> cp = "idle"
              [] o = "refuse" -> ~refusing /\ ~closedS
              [] OTHER -> ~closedS /\ Len(sock) < 3

Arrive(p, b) == /\ sock' = Append(sock, [id |-> nid + 1, p |-> p, bad |-> b]) /\ nid' = nid + 1
                /\ Emit([e |-> IF b THEN "fail" ELSE "dg", id |-> nid + 1, p |-> p])
                /\ UNCHANGED <<rp, rd, wp, wk, cp, refusing, closedS, lock, peer, nk>>
Do(o) ==
  CASE o \in Readers -> /\ rp' = [rp EXCEPT ![o] = "call"] /\ rd' = [rd EXCEPT ![o] = [@ EXCEPT !.k = nk + 1]]
                        /\ nk' = nk + 1 /\ Emit([e |-> "rdCall", k |-> nk + 1])
                        /\ UNCHANGED <<wp, wk, cp, sock, refusing, closedS, lock, peer, nid>>
    [] o \in Writers -> /\ wp' = [wp EXCEPT ![o] = "call"] /\ wk' = [wk EXCEPT ![o] = [@ EXCEPT !.k = nk + 1]]
                        /\ nk' = nk + 1 /\ Emit([e |-> "wrCall", k |-> nk + 1])
                        /\ UNCHANGED <<rp, rd, cp, sock, refusing, closedS, lock, peer, nid>>
    [] o = "close" -> cp' = "call" /\ Emit(Ev("close"))
                        /\ UNCHANGED <<rp, rd, wp, wk, sock, refusing, closedS, lock, peer, nid, nk>>
    [] o = "refuse" -> refusing' = TRUE /\ Silent /\ UNCHANGED <<rp, rd, wp, wk, cp, sock, closedS, lock, peer, nid, nk>>
    [] o = "A" -> Arrive("A", FALSE)
    [] o = "B" -> Arrive("B", FALSE)
    [] o = "failA" -> Arrive("A", TRUE)
    [] o = "failB" -> Arrive("B", TRUE)

AtEase == ~ENABLED Internal
Operate ==
  \E o \in Ops :
    /\ left > 0 /\ CanDo(o)
    /\ Batch > 0 => \/ AtEase /\ rested
                    \/ now # {} /\ Cardinality(now) < Batch /\ o \notin now
    /\ Do(o) /\ left' = left - 1 /\ rested' = FALSE
    /\ IF Batch = 0 THEN UNCHANGED <<now, ops>>
       ELSE IF AtEase /\ rested THEN now' = {o} /\ ops' = Append(ops, <<o>>)
       ELSE now' = now \cup {o} /\ ops' = [ops EXCEPT ![Len(ops)] = Append(@, o)]
Run == Internal /\ now' = (IF Batch > 0 THEN {} ELSE now) /\ UNCHANGED <<nid, nk, left, ops, rested>>
Rest == /\ AtEase /\ ~rested /\ rested' = TRUE /\ now' = {} /\ Emit(Ev("rest"))
        /\ UNCHANGED <<lib, nid, nk, left, ops>>
Next == Operate \/ Run \/ Rest
Spec == Init /\ [][Next]_vars

Allowed == bad = {}
\* the peer is what the acceptor thinks it may be
Faithful == a.fixed => peer \in a.cand
=============================================================================
