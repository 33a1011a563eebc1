------------------------------ MODULE PortsAbs ------------------------------
(***************************************************************************)
(* Many UDP endpoints side by side, as their users and peers can observe    *)
(* them: which address and port each one owns, what reaches it, where its   *)
(* datagrams come from, and what closing leaves behind.  An acceptor of     *)
(* event histories.  Operations are done one after the other, except that   *)
(* one read per endpoint may be waiting.                                    *)
(*                                                                          *)
(*   open [k, a, p, ok, made]  an endpoint was asked for at address a and   *)
(*                         port p; ok: no error; made: an endpoint came     *)
(*   hold [a, p, ok], release [a, p]  another program's socket              *)
(*   dg [id, s, a, p]      sender s sends datagram id to address a, port p  *)
(*   rd [k], rdRet [k, id, err]       a read of endpoint k; id 0: something *)
(*                         else than a datagram that was sent               *)
(*   wr [k, id], wrRet [k, id, err, full]                                   *)
(*   out [id, s, a, p]     sender s gets what was written as id, from       *)
(*                         address a and port p; id 0: something else       *)
(*   close [k], closeRet [k, err, again]                                    *)
(*   rest                  nothing moves any more                           *)
(*   stuck, panic          an operation hangs, or panics                    *)
(*                                                                          *)
(* Addresses: lo1, lo2, lo6 (local ones; the last is an IPv6 one), any (unspecified), empty; anything *)
(* else is not local, or no address.  Ports: p1, p2; anything else is not a *)
(* port.                                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

AnyAddr(x) == x \in {"any", "empty"}
Usable(x, p) == x \in {"lo1", "lo2", "lo6", "any", "empty"} /\ p \in {"p1", "p2"}
Overlap(x, y) == x.p = y.p /\ (x.a = y.a \/ AnyAddr(x.a) \/ AnyAddr(y.a))
Hears(x, addr, p) == x.p = p /\ (x.a = addr \/ AnyAddr(x.a))

Start == [ ends |-> {},      \* endpoints that exist [k, a, p, q, peer, rd]
           foreign |-> {},   \* other sockets [a, p]
           owed |-> {},      \* writes whose datagram has not been seen yet [id, s, a, p]
           late |-> {} ]     \* closed endpoints with a pending read

Free(s, addr, p) == /\ Usable(addr, p)
                    /\ \A x \in s.ends \cup s.foreign : ~Overlap(x, [a |-> addr, p |-> p])
Lives(s, k) == \E x \in s.ends : x.k = k
End(s, k) == CHOOSE x \in s.ends : x.k = k
Change(s, k, y) == [s EXCEPT !.ends = { IF x.k = k THEN y ELSE x : x \in @ }]

After(s, e) ==
    CASE e.e = "open" -> IF e.ok THEN [s EXCEPT !.ends = @ \cup {[k |-> e.k, a |-> e.a, p |-> e.p, q |-> <<>>, peer |-> "", rd |-> FALSE]}]
                         ELSE s
      [] e.e = "hold" -> IF e.ok THEN [s EXCEPT !.foreign = @ \cup {[a |-> e.a, p |-> e.p]}] ELSE s
      [] e.e = "release" -> [s EXCEPT !.foreign = @ \ {[a |-> e.a, p |-> e.p]}]
      [] e.e = "dg" -> [s EXCEPT !.ends = { IF Hears(x, e.a, e.p) THEN [x EXCEPT !.q = Append(@, [id |-> e.id, s |-> e.s])] ELSE x : x \in @ }]
      [] e.e = "rd" -> IF Lives(s, e.k) THEN Change(s, e.k, [End(s, e.k) EXCEPT !.rd = TRUE]) ELSE [s EXCEPT !.late = @ \cup {e.k}]
      [] e.e = "rdRet" -> IF ~Lives(s, e.k) THEN [s EXCEPT !.late = @ \ {e.k}]
                          ELSE LET x == End(s, e.k)
                               IN  Change(s, e.k, IF e.err = "" /\ x.q # <<>>
                                                  THEN [x EXCEPT !.rd = FALSE, !.q = Tail(@), !.peer = IF @ = "" THEN Head(x.q).s ELSE @]
                                                  ELSE [x EXCEPT !.rd = FALSE])
      [] e.e = "wr" -> IF Lives(s, e.k) /\ End(s, e.k).peer # ""
                       THEN LET x == End(s, e.k)
                            IN  [s EXCEPT !.owed = @ \cup {[id |-> e.id, s |-> x.peer, a |-> x.a, p |-> x.p]}]
                       ELSE s
      [] e.e = "out" -> [s EXCEPT !.owed = { o \in @ : o.id # e.id }]
      [] e.e = "close" -> [s EXCEPT !.ends = { x \in @ : x.k # e.k },
                                    !.late = IF Lives(s, e.k) /\ End(s, e.k).rd THEN @ \cup {e.k} ELSE @]
      [] OTHER -> s

Ok(s, e) ==
    CASE e.e = "open" -> e.ok = Free(s, e.a, e.p) /\ e.made = e.ok
      [] e.e = "hold" -> e.ok = Free(s, e.a, e.p)
      [] e.e = "rdRet" -> IF ~Lives(s, e.k) THEN e.err # ""
                          ELSE LET x == End(s, e.k)
                               IN  e.err = "" /\ x.q # <<>> /\ (x.q # <<>> => Head(x.q).id = e.id)
      [] e.e = "wrRet" -> IF ~Lives(s, e.k) THEN e.err # ""
                          ELSE IF End(s, e.k).peer = "" THEN e.err = "noaddr"
                          ELSE e.err = "" /\ e.full
      [] e.e = "out" -> \E o \in s.owed : o.id = e.id /\ o.s = e.s /\ o.p = e.p /\ (o.a = e.a \/ AnyAddr(o.a))
      [] e.e = "closeRet" -> e.again \/ e.err = ""
      [] e.e = "rest" -> /\ s.owed = {} /\ s.late = {}
                         /\ \A x \in s.ends : ~(x.rd /\ x.q # <<>>)
      [] e.e \in {"stuck", "panic"} -> FALSE
      [] OTHER -> TRUE
=============================================================================
