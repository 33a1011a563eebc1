------------------------------ MODULE TraceLink ------------------------------
(***************************************************************************)
(* Judges what crossed a link of two real streams.  A record holds          *)
(*   sent.ab, sent.ba   the messages put into the streams, in order         *)
(*                      [ver, seq, sys, comp, d, id, vals]                  *)
(*   ev                 what was observed:                                  *)
(*     recv [s, ver, seq, sys, comp, id, err, mid, dname, back, rver]       *)
(*        direction s handed a frame to its consumer, and it was decoded    *)
(*     rest [ab, ba, hab, hba]  nothing moves any more; so many messages    *)
(*        had been sent in each direction; the consumer holds back          *)
(*     race, panic, stuck, closed   something went wrong                    *)
(* The state is that of Link, as far as it shows: how many were received.   *)
(***************************************************************************)
EXTENDS MavCodec

Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, i, na, nb
vars == <<r, i, na, nb>>
Evs == Recs[r].ev

Init == r \in 1..Len(Recs) /\ i = 0 /\ na = 0 /\ nb = 0
Next == /\ i < Len(Evs) /\ i' = i + 1 /\ r' = r
        /\ na' = na + (IF Evs[i + 1].e = "recv" /\ Evs[i + 1].s = "ab" THEN 1 ELSE 0)
        /\ nb' = nb + (IF Evs[i + 1].e = "recv" /\ Evs[i + 1].s = "ba" THEN 1 ELSE 0)
Spec == Init /\ [][Next]_vars

Same(m, e) ==
    LET def == Def(m.d, m.id)
    IN  /\ e.err = "" /\ e.mid = m.id /\ e.id = m.id /\ e.dname = m.d
        /\ e.ver = m.ver /\ e.seq = m.seq /\ e.sys = m.sys /\ e.comp = m.comp
        /\ ValueLens(def, m.vals)
        /\ SameVals(def, e.back, Survives(def, m.ver, m.vals))

Allowed(e) ==
    CASE e.e = "recv" ->
           LET sent == IF e.s = "ab" THEN Recs[r].sent.ab ELSE Recs[r].sent.ba
               n    == (IF e.s = "ab" THEN na ELSE nb) + 1
           IN  n <= Len(sent) /\ Same(sent[n], e)
      [] e.e = "rest" -> /\ (e.hab \/ na = e.ab) /\ na <= e.ab
                         /\ (e.hba \/ nb = e.ba) /\ nb <= e.ba
      [] OTHER -> FALSE
Conforms == i < Len(Evs) => Allowed(Evs[i + 1])
=============================================================================
