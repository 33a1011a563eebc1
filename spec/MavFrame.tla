------------------------------ MODULE MavFrame ------------------------------
(***************************************************************************)
(* Layout of MAVLink 1 and 2 frames, dialect lists and the verdict of a     *)
(* frame under a dialect list.                                              *)
(***************************************************************************)
EXTENDS MavSchema

V1Start == 254
V2Start == 253
IsStart(b) == b \in {V1Start, V2Start}

Version(f) == IF At(f, 0) = V2Start THEN 2 ELSE 1
HdrLen(v) == IF v = 2 THEN 10 ELSE 6
PLen(f) == At(f, 1)
IncFlags(f) == At(f, 2)
CompatFlags(f) == At(f, 3)
IsSigned(f) == Version(f) = 2 /\ IncFlags(f) % 2 = 1

\* the complete length a candidate declares
DeclLen(f) == HdrLen(Version(f)) + PLen(f) + 2 + (IF IsSigned(f) THEN 13 ELSE 0)

Complete(f) == Len(f) >= 3 /\ IsStart(At(f, 0)) /\ Len(f) = DeclLen(f)

SeqNo(f)  == At(f, IF Version(f) = 2 THEN 4 ELSE 2)
SysId(f)  == At(f, IF Version(f) = 2 THEN 5 ELSE 3)
CompId(f) == At(f, IF Version(f) = 2 THEN 6 ELSE 4)
MsgId(f)  == IF Version(f) = 2 THEN LE(Slice(f, 7, 3)) ELSE At(f, 5)
Payload(f) == Slice(f, HdrLen(Version(f)), PLen(f))
CrcInput(f) == Slice(f, 1, HdrLen(Version(f)) + PLen(f) - 1)
CrcBytes(f) == Slice(f, HdrLen(Version(f)) + PLen(f), 2)
Checksum(f) == LE(CrcBytes(f))
Signature(f) == Slice(f, HdrLen(2) + PLen(f) + 2, 13)

\* the same for a candidate at the head of a longer buffer
Head1(s) == SubSeq(s, 1, DeclLen(s))

---------------------------------------------------------------------------
(* Dialect lists.  A dialect is a record with a field n:                    *)
(*   [n |-> "common"]  one of the shipped dialects                          *)
(*   [n |-> "stub", ids |-> << [id,crc,min,max] ... >>, fail |-> <<id...>>] *)
(* a test dialect that knows some IDs and fails with an own error on others *)
MetaIn(d, id) ==
    IF d.n = "stub"
    THEN LET hits == { i \in 1..Len(d.ids) : d.ids[i].id = id }
         IN  CASE \E i \in 1..Len(d.fail) : d.fail[i] = id -> [k |-> "other"]
               [] hits # {} -> LET e == d.ids[CHOOSE i \in hits : TRUE]
                               IN  [k |-> "ok", crc |-> e.crc, min |-> e.min, max |-> e.max]
               [] OTHER -> [k |-> "unknown"]
    ELSE IF Knows(d.n, id)
         THEN LET m == Def(d.n, id) IN [k |-> "ok", crc |-> m.crc, min |-> m.min, max |-> m.max]
         ELSE [k |-> "unknown"]

\* the first dialect that does not answer "unknown" decides; 0 if there is none
Decider(dl, id) ==
    LET c == { i \in 1..Len(dl) : MetaIn(dl[i], id).k # "unknown" }
    IN  IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j

Lookup(dl, id) ==
    LET i == Decider(dl, id) IN IF i = 0 THEN [k |-> "unknown"] ELSE MetaIn(dl[i], id)

---------------------------------------------------------------------------
\* The verdict, in its order of precedence.
Verdict(dl, f) ==
    LET m == Lookup(dl, MsgId(f))
    IN  CASE m.k # "ok" -> m.k
          [] Version(f) = 1 /\ PLen(f) < m.min -> "short"
          [] PLen(f) > m.max -> "long"
          [] Crc(Append(CrcInput(f), m.crc)) # Checksum(f) -> "crc"
          [] OTHER -> "ok"

\* a frame as this library builds it
Build(v, sys, comp, seq, id, payload, crcextra) ==
    LET hdr == IF v = 2
               THEN <<V2Start, Len(payload), 0, 0, seq, sys, comp>> \o ToLE24(id)
               ELSE <<V1Start, Len(payload), seq, sys, comp, id>>
        body == hdr \o payload
    IN  body \o ToLE16(Crc(Append(SubSeq(body, 2, Len(body)), crcextra)))
=============================================================================
