-------------------------------- MODULE UdpGen --------------------------------
(***************************************************************************)
(* Scenarios for the UDP driver, taken from Udp in batch mode.              *)
(***************************************************************************)
EXTENDS Udp, Json

\* datagrams are told apart by their sender and kind only
GenView == <<rp, wp, cp, [i \in 1..Len(sock) |-> <<sock[i].p, sock[i].bad>>], refusing, closedS, lock, peer,
             [x \in Readers |-> <<rd[x].d.p, rd[x].err>>], now, rested>>

Order == <<"r1", "r2", "w1", "w2", "close", "refuse", "A", "B", "failA", "failB">>
Pos(o) == CHOOSE i \in 1..Len(Order) : Order[i] = o
Sensible(o) == \A p \in now : Pos(p) < Pos(o)

Scenario == PrintT("SCN " \o ToJson([ops |-> ops']))
GenNext == (Operate /\ Sensible(Last(Last(ops')))) \/ Run \/ Rest
GenSpec == Init /\ [][GenNext]_vars
Emitted == ops' # ops => Scenario
Short == Cardinality(now) < 2
WalkNext ==
  \/ /\ Operate
     /\ LET o == Last(Last(ops')) IN Sensible(o) /\ (o = "close" => left <= 3)
  \/ Run
  \/ Rest
WalkSpec == Init /\ [][WalkNext]_vars
WalkEnd == left' = 0 /\ left = 1 => Scenario
=============================================================================
