----------------------------- MODULE TracePorts -----------------------------
(***************************************************************************)
(* Judges recorded histories of real UDP endpoints by the acceptor PortsAbs. *)
(***************************************************************************)
EXTENDS PortsAbs, Json, IOUtils, TLC

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, i, a
vars == <<r, i, a>>
Evs == Recs[r].ev
Init == r \in 1..Len(Recs) /\ i = 0 /\ a = Start
Next == i < Len(Evs) /\ i' = i + 1 /\ r' = r /\ a' = After(a, Evs[i + 1])
Spec == Init /\ [][Next]_vars
Conforms == i < Len(Evs) => Ok(a, Evs[i + 1])
=============================================================================
