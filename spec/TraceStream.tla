---------------------------- MODULE TraceStream ----------------------------
(***************************************************************************)
(* Judges recorded histories of real streams: each is run through the       *)
(* acceptor StreamAbs, and no event may violate the property in question.   *)
(***************************************************************************)
EXTENDS StreamAbs, Json, IOUtils, TLC

Recs == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES r, i, a
vars == <<r, i, a>>

Evs == Recs[r].ev

Init == r \in 1..Len(Recs) /\ i = 0 /\ a = Start(Recs[r].cfg)
Next == i < Len(Evs) /\ i' = i + 1 /\ r' = r /\ a' = After(a, Evs[i + 1])
Spec == Init /\ [][Next]_vars

\* C28: a stream among others is held to everything a stream alone is held to.
Conforms == i < Len(Evs) => IF Prop = "C28" THEN Bad(a, Evs[i + 1]) = {} /\ Evs[i + 1].e # "stuck"
                                            ELSE Prop \notin Bad(a, Evs[i + 1])
=============================================================================
