------------------------------ MODULE PortsGen ------------------------------
(***************************************************************************)
(* Scenarios for the endpoint driver: random walks of Ports.                *)
(***************************************************************************)
EXTENDS Ports, Json
\* invalid requests are rare, and an endpoint is not dropped at once
Chance(n, of) == RandomElement(1..of) <= n
GenNext == /\ Next
           /\ LET o == ops'[Len(ops')]
              IN  /\ o[1] = "open" => (Living = 0 \/ Chance(1, 4)) /\ (Usable(o[3], o[4]) \/ Chance(1, 3))
                  /\ o[1] = "dg" => Chance(1, 2)
                  /\ o[1] = "close" => Chance(2, 3)
                  /\ o[1] \in {"hold", "release"} => Chance(1, 2)
GenSpec == Init /\ [][GenNext]_vars
WalkEnd == left' = 0 => PrintT("SCN " \o ToJson([ops |-> ops']))
=============================================================================
