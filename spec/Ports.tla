-------------------------------- MODULE Ports --------------------------------
(***************************************************************************)
(* UDP endpoints over the sockets of one host, as they are built: creating  *)
(* one binds a socket, closing it gives the socket back.  Emits its events  *)
(* into the acceptor PortsAbs.                                              *)
(***************************************************************************)
EXTENDS PortsAbs, SequencesExt, TLC

CONSTANTS Budget,      \* operations
          Addrs, Ports,\* asked for
          Bug          \* "" or a mistake: keep, fallback, wide, share, inherit, wrap, deafClose

VARIABLES socks,       \* bound sockets [own, a, p, q]: own is the endpoint, 0: another program
          eps,         \* endpoints [k, open, peer, rd, a, p]
          memory,      \* what the process remembers across endpoints (a mistake's)
          nk, nid, left, ops, s, ok
vars == <<socks, eps, memory, nk, nid, left, ops, s, ok>>

Senders == {"s1", "s2"} \cup (IF "lo6" \in Addrs THEN {"s6"} ELSE {})
Local == {"lo1", "lo2"} \cup (Addrs \cap {"lo6"})
Reaches(sn, x) == (sn = "s6") = (x = "lo6")

Init == /\ socks = {} /\ eps = {} /\ memory = "" /\ nk = 0 /\ nid = 0 /\ left = Budget /\ ops = <<>>
        /\ s = Start /\ ok = TRUE

RECURSIVE Fold(_, _, _)
Fold(st, good, evs) == IF evs = <<>> THEN <<st, good>>
                       ELSE Fold(After(st, Head(evs)), good /\ Ok(st, Head(evs)), Tail(evs))
Emit(evs) == LET f == Fold(s, ok, Append(evs, [e |-> "rest"])) IN s' = f[1] /\ ok' = f[2]
Log(op, n) == ops' = Append(ops, Append(op, ToString(n))) /\ left' = left - 1

RealAddr(x) == IF Bug = "wide" /\ x = "lo2" THEN "any" ELSE x
RealPort(p) == IF Bug = "wrap" /\ p = "wrap" THEN "p1" ELSE p
Taken(x, p) == \E y \in socks : Overlap(y, [a |-> x, p |-> p])
Sock(k) == CHOOSE y \in socks : y.own = k
HasSock(k) == \E y \in socks : y.own = k
Ep(k) == CHOOSE x \in eps : x.k = k
Put(x) == eps' = { IF y.k = x.k THEN x ELSE y : y \in eps }

Other(p) == IF p = "p1" THEN "p2" ELSE "p1"
Open(x, p) ==
    LET k == nk + 1
        ra == RealAddr(x)
        rp == RealPort(p)
        can(q) == Usable(ra, q) /\ (Bug = "share" \/ ~Taken(ra, q))
        port == IF can(rp) THEN rp
                ELSE IF Bug = "fallback" /\ Usable(ra, rp) /\ can(Other(rp)) THEN Other(rp) ELSE ""
    IN  /\ nk' = k
        /\ IF port # ""
           THEN /\ socks' = socks \cup {[own |-> k, a |-> ra, p |-> port, q |-> <<>>]}
                /\ eps' = eps \cup {[k |-> k, open |-> TRUE, peer |-> IF Bug = "inherit" THEN memory ELSE "", rd |-> FALSE]}
           ELSE UNCHANGED <<socks, eps>>
        /\ UNCHANGED <<memory, nid>>
        /\ Emit(<<[e |-> "open", k |-> k, a |-> x, p |-> p, ok |-> port # "", made |-> port # ""]>>)
        /\ Log(<<"open", ToString(k), x, p>>, 1)

Hold(x, p) ==
    LET can == ~Taken(x, p)
    IN  /\ ~\E y \in socks : y.own = 0
        /\ socks' = (IF can THEN socks \cup {[own |-> 0, a |-> x, p |-> p, q |-> <<>>]} ELSE socks)
        /\ UNCHANGED <<eps, memory, nk, nid>>
        /\ Emit(<<[e |-> "hold", a |-> x, p |-> p, ok |-> can]>>)
        /\ Log(<<"hold", x, p>>, 1)
Release ==
    \E y \in socks :
        /\ y.own = 0 /\ socks' = socks \ {y} /\ UNCHANGED <<eps, memory, nk, nid>>
        /\ Emit(<<[e |-> "release", a |-> y.a, p |-> y.p]>>)
        /\ Log(<<"release", y.a, y.p>>, 1)

Got(k, id) == [e |-> "rdRet", k |-> k, id |-> id, err |-> ""]
\* the datagram goes to the one socket that matches best
Send(sn, x, p) ==
    LET id == nid + 1
        exact == { y \in socks : y.p = p /\ y.a = x }
        match == IF exact # {} THEN exact ELSE { y \in socks : Hears(y, x, p) }
        ev == [e |-> "dg", id |-> id, s |-> sn, a |-> x, p |-> p]
    IN  /\ nid' = id /\ UNCHANGED nk
        /\ IF match = {} THEN UNCHANGED <<socks, eps, memory>> /\ Emit(<<ev>>) /\ Log(<<"dg", ToString(id), sn, x, p>>, 1)
           ELSE LET y == CHOOSE y \in match : \A z \in match : z.own <= y.own
                IN  IF y.own # 0 /\ (\E e \in eps : e.k = y.own /\ e.rd)
                    THEN /\ Put([Ep(y.own) EXCEPT !.rd = FALSE, !.peer = IF @ = "" THEN sn ELSE @])
                         /\ memory' = sn /\ UNCHANGED socks
                         /\ Emit(<<ev, Got(y.own, id)>>) /\ Log(<<"dg", ToString(id), sn, x, p>>, 2)
                    ELSE /\ Len(y.q) < 2
                         /\ socks' = { IF z = y THEN [z EXCEPT !.q = Append(@, [id |-> id, s |-> sn])] ELSE z : z \in socks }
                         /\ UNCHANGED <<eps, memory>>
                         /\ Emit(<<ev>>) /\ Log(<<"dg", ToString(id), sn, x, p>>, 1)

Read(k) ==
    LET x == Ep(k)
        call == [e |-> "rd", k |-> k]
        op == <<"rd", ToString(k)>>
    IN  /\ ~x.rd /\ UNCHANGED <<nk, nid>>
        /\ IF ~x.open
           THEN /\ UNCHANGED <<socks, eps, memory>>
                /\ Emit(<<call, [e |-> "rdRet", k |-> k, id |-> 0, err |-> "err"]>>) /\ Log(op, 2)
           ELSE LET y == Sock(k)
                IN  IF y.q = <<>>
                    THEN /\ Put([x EXCEPT !.rd = TRUE]) /\ UNCHANGED <<socks, memory>> /\ Emit(<<call>>) /\ Log(op, 1)
                    ELSE /\ Put([x EXCEPT !.peer = IF @ = "" THEN Head(y.q).s ELSE @])
                         /\ memory' = Head(y.q).s
                         /\ socks' = { IF z = y THEN [z EXCEPT !.q = Tail(@)] ELSE z : z \in socks }
                         /\ Emit(<<call, Got(k, Head(y.q).id)>>) /\ Log(op, 2)

Write(k) ==
    LET x == Ep(k)
        id == nid + 1
        call == [e |-> "wr", k |-> k, id |-> id]
        ret(err) == [e |-> "wrRet", k |-> k, id |-> id, err |-> err, full |-> TRUE]
        op == <<"wr", ToString(k), ToString(id)>>
    IN  /\ nid' = id /\ UNCHANGED <<socks, eps, memory, nk>>
        /\ IF x.peer = "" THEN Emit(<<call, ret("noaddr")>>) /\ Log(op, 2)
           ELSE IF ~x.open THEN Emit(<<call, ret("err")>>) /\ Log(op, 2)
           ELSE LET y == Sock(k)
                IN  Emit(<<call, [e |-> "out", id |-> id, s |-> x.peer, a |-> IF ~AnyAddr(y.a) THEN y.a ELSE IF x.peer = "s6" THEN "lo6" ELSE "lo1", p |-> y.p],
                           ret("")>>) /\ Log(op, 3)

Close(k) ==
    LET x == Ep(k)
        late == IF x.rd /\ Bug # "deafClose" THEN <<[e |-> "rdRet", k |-> k, id |-> 0, err |-> "err"]>> ELSE <<>>
    IN  /\ Put([x EXCEPT !.open = FALSE, !.rd = FALSE])
        /\ socks' = (IF HasSock(k) /\ Bug = "keep" THEN { IF y.own = k THEN [y EXCEPT !.own = 0 - k] ELSE y : y \in socks }
                     ELSE { y \in socks : y.own # k })
        /\ UNCHANGED <<memory, nk, nid>>
        /\ Emit(<<[e |-> "close", k |-> k]>> \o late \o <<[e |-> "closeRet", k |-> k, err |-> "", again |-> ~x.open]>>)
        /\ Log(<<"close", ToString(k)>>, 2 + Len(late))

Living == Cardinality({ x \in eps : x.open })
Next ==
  /\ left > 0
  /\ \/ \E x \in Addrs, p \in Ports : Living < 3 /\ Open(x, p)
     \/ \E x \in {"lo1", "any"}, p \in {"p1"} : Hold(x, p)
     \/ Release
     \/ \E sn \in Senders, x \in Local, p \in {"p1", "p2"} : Reaches(sn, x) /\ Send(sn, x, p)
     \/ \E x \in eps : Read(x.k) \/ Write(x.k) \/ Close(x.k)
Spec == Init /\ [][Next]_vars

Allowed == ok
\* no two endpoints hear the same place, and everybody's socket is where it was asked for
Apart == \A y, z \in socks : y # z => ~Overlap(y, z)
DesignView == <<socks, { x \in eps : x.open \/ x.k > nk - 2 }, left, s, ok>>

=============================================================================
