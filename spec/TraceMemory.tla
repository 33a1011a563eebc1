----------------------------- MODULE TraceMemory -----------------------------
(***************************************************************************)
(* C05: delivered frames are private copies.  The model of the memory is    *)
(* one byte string per delivered frame.  Delivering adds one; changing the  *)
(* bytes of a frame changes that one only; appending behind a frame changes *)
(* none; looking at all of them must show exactly the model, whatever the   *)
(* stream did in between.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Recs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES r, i, mem
vars == <<r, i, mem>>

Ops == Recs[r].rec.mem
Op == Ops[i + 1]

Init == r \in 1..Len(Recs) /\ i = 0 /\ mem = <<>>

Deliver == Op.op = "deliver" /\ mem' = Append(mem, Op.b)
Change  == /\ Op.op = "mutate"
           /\ mem' = [mem EXCEPT ![Op.i] =
                        SubSeq(@, 1, Op.off) \o Op.b \o SubSeq(@, Op.off + Len(Op.b) + 1, Len(@))]
Spare   == Op.op = "append" /\ mem' = mem
Look    == Op.op = "check" /\ Op.all = mem /\ mem' = mem

Next == /\ i < Len(Ops)
        /\ Deliver \/ Change \/ Spare \/ Look
        /\ i' = i + 1 /\ r' = r

Spec == Init /\ [][Next]_vars

Conforms == i < Len(Ops) /\ Op.op = "check" => Op.all = mem
=============================================================================
