------------------------------- MODULE UdpAbs -------------------------------
(***************************************************************************)
(* A UDP endpoint as its users and peers can observe it: an acceptor of     *)
(* event histories, like StreamAbs.                                         *)
(*                                                                          *)
(*   dg [id, p]            datagram id of peer p arrives                    *)
(*   fail [id, p]          a reception that fails, with an address, arrives *)
(*   rdCall [k], rdRet [k, id, err]    read k; id: the datagram whose       *)
(*                         payload exactly it returned, 0 if none           *)
(*   wrCall [k], wrRet [k, err, full]  write k; full: the count returned is *)
(*                         the number of bytes                              *)
(*   out [k, p]            a datagram with exactly the bytes of write k is  *)
(*                         sent to peer p; k = 0: other bytes               *)
(*   refuse [k]            the socket refuses to send the bytes of write k  *)
(*   close, closeRet       the endpoint is closed                           *)
(*   rest                  nothing moves any more                           *)
(*   stuck                 it hangs                                         *)
(*   panic, race           something went wrong in the library              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Start == [ q |-> <<>>,        \* datagrams that arrived and were not returned
           pr |-> {},         \* pending reads [k, late]
           pw |-> {},         \* pending writes [k, must, maybe, late, out, refused]
           owed |-> {},       \* successful writes whose datagram was not seen yet
           sent |-> {},       \* writes whose datagram was seen
           wfailed |-> {},    \* failed writes
           fixed |-> FALSE,   \* a read has returned a datagram
           cand |-> {},       \* peers that writes may go to
           pinned |-> FALSE,  \* a write has shown the peer
           bads |-> {},       \* peers of failed receptions
           goods |-> {},      \* peers of datagrams
           conc |-> FALSE,    \* two operations have been pending at once
           closing |-> FALSE, closed |-> FALSE, closers |-> 0 ]

Good(q) == SelectSeq(q, LAMBDA d : ~d.bad)
Senders(q) == { q[i].p : i \in { j \in 1..Len(q) : ~q[j].bad } }

\* without a read having returned, a peer may be known: one took a datagram already
Poss(a) == a.fixed \/ (a.pr # {} /\ Senders(a.q) # {})

Drop(q, id) == SelectSeq(q, LAMBDA d : d.id # id)
Known(q, id) == \E i \in 1..Len(q) : q[i].id = id
GoodPos(q, id) == LET g == Good(q) IN CHOOSE i \in 1..Len(g) : g[i].id = id
IsGood(q, id) == \E i \in 1..Len(q) : q[i].id = id /\ ~q[i].bad

Pr(a, k) == CHOOSE x \in a.pr : x.k = k
Pw(a, k) == CHOOSE x \in a.pw : x.k = k
InPw(a, k) == \E x \in a.pw : x.k = k
InPr(a, k) == \E x \in a.pr : x.k = k

Fix(a, id) ==
    LET p == (CHOOSE i \in 1..Len(a.q) : a.q[i].id = id)
        others == Cardinality(a.pr) > 1
    IN  IF a.fixed THEN a
        ELSE [a EXCEPT !.fixed = TRUE,
                       !.cand = IF a.pinned THEN @
                                ELSE {a.q[p].p} \cup (IF others THEN Senders(a.q) ELSE {})]

After0(a, e) ==
    CASE e.e = "dg"     -> [a EXCEPT !.q = Append(@, [id |-> e.id, p |-> e.p, bad |-> FALSE]), !.goods = @ \cup {e.p}]
      [] e.e = "fail"   -> [a EXCEPT !.q = Append(@, [id |-> e.id, p |-> e.p, bad |-> TRUE]), !.bads = @ \cup {e.p}]
      [] e.e = "rdCall" -> [a EXCEPT !.pr = @ \cup {[k |-> e.k, late |-> a.closed]}]
      [] e.e = "rdRet"  -> LET b == IF IsGood(a.q, e.id) /\ e.err = "" THEN Fix(a, e.id) ELSE a
                           IN  [b EXCEPT !.pr = { x \in @ : x.k # e.k },
                                         !.q = IF Known(@, e.id) THEN Drop(@, e.id) ELSE @]
      [] e.e = "wrCall" -> [a EXCEPT !.pw = @ \cup {[k |-> e.k, must |-> a.fixed, maybe |-> Poss(a), late |-> a.closed,
                                                    refused |-> FALSE]}]
      [] e.e = "wrRet"  -> [a EXCEPT !.pw = { x \in @ : x.k # e.k },
                                     !.owed = IF e.err = "" /\ e.k \notin a.sent THEN @ \cup {e.k} ELSE @,
                                     !.wfailed = IF e.err # "" THEN @ \cup {e.k} ELSE @]
      [] e.e = "out"    -> [a EXCEPT !.owed = @ \ {e.k}, !.sent = @ \cup {e.k},
                                     !.pinned = TRUE,
                                     !.cand = IF a.fixed \/ a.pinned THEN (IF e.p \in @ THEN {e.p} ELSE @) ELSE {e.p}]
      [] e.e = "refuse" -> [a EXCEPT !.pw = { IF x.k = e.k THEN [x EXCEPT !.refused = TRUE] ELSE x : x \in @ }]
      [] e.e = "close"  -> [a EXCEPT !.closing = TRUE, !.closers = @ + 1]
      [] e.e = "closeRet" -> [a EXCEPT !.closed = TRUE, !.closers = @ - 1]
      [] OTHER -> a

After(a, e) ==
    LET b == After0(a, e)
        p == Poss(b)
    IN  [b EXCEPT !.conc = @ \/ Cardinality(b.pr) + Cardinality(b.pw) + b.closers > 1,
                  !.pw = { [x EXCEPT !.maybe = @ \/ p] : x \in @ }]

---------------------------------------------------------------------------
V(p, cond) == IF cond THEN {} ELSE {p}

\* datagrams lost, duplicated or mixed up
Mixed(a, cond) == IF cond THEN {} ELSE IF a.conc THEN {"C20", "C21"} ELSE {"C20"}

Bad(a, e) ==
    CASE e.e \in {"race", "stuck"} -> {"C21"}
      [] e.e = "panic" -> {"C20", "C21"}
      [] e.e = "rdRet" ->
           IF e.err = ""
           THEN Mixed(a, IsGood(a.q, e.id) /\ GoodPos(a.q, e.id) <= Cardinality(a.pr))
                \cup V("C21", InPr(a, e.k) => ~Pr(a, e.k).late)
           ELSE Mixed(a, a.closing \/ \E i \in 1..Len(a.q) : a.q[i].bad)
      [] e.e = "out" ->
           Mixed(a, /\ e.k # 0 /\ e.k \notin a.sent /\ e.k \notin a.wfailed
                    /\ (InPw(a, e.k) \/ e.k \in a.owed))
           \cup (LET ok == IF a.fixed \/ a.pinned THEN e.p \in a.cand ELSE a.pr # {} /\ e.p \in Senders(a.q)
                 IN  IF ok THEN {} ELSE IF e.p \in a.bads \ a.goods THEN {"C20", "C21"} ELSE {"C20"})
      [] e.e = "wrRet" ->
           LET w == Pw(a, e.k)
           IN  IF ~InPw(a, e.k) THEN {}
               ELSE IF e.err = ""
               THEN V("C21", ~w.late) \cup V("C20", e.full) \cup V("C20", ~w.refused)
               ELSE IF e.err = "noaddr"
               THEN V("C20", w.must => a.closing)
               ELSE V("C20", a.closing \/ w.refused)
                    \cup V("C20", w.maybe \/ a.pinned)
                    \cup Mixed(a, e.k \notin a.sent)
      [] e.e = "rest" ->
           V("C21", a.pw = {} /\ a.closers = 0)
           \cup (IF a.pr = {} THEN {}
                 ELSE IF a.closing THEN {"C21"} ELSE Mixed(a, Good(a.q) = <<>>))
           \cup Mixed(a, a.owed = {})
      [] OTHER -> {}
=============================================================================
