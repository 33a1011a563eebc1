------------------------------ MODULE MavCodec ------------------------------
(***************************************************************************)
(* Encoding and decoding of messages.  The value of a field is the sequence *)
(* of the bytes of its elements, most significant byte first, element after *)
(* element; a message value is the sequence of its field values in          *)
(* definition order.  V2_EXTENSION carries one more value: the length of    *)
(* its variable payload.                                                    *)
(***************************************************************************)
EXTENDS MavFrame

\* per element reversed: big endian value <-> little endian wire
Swap(v, size) ==
    [ i \in 1..Len(v) |-> v[ ((i - 1) \div size) * size + size - ((i - 1) % size) ] ]

VarHdr == 5

\* all fields of the definition at their offsets
FullPayload(def, vals) ==
    FlattenSeq([ k \in 1..Len(def.wire) |->
                   Swap(vals[def.wire[k]], def.fields[def.wire[k]].size) ])

ValueLens(def, vals) ==
    /\ Len(vals) = Len(def.fields) + (IF def.var THEN 1 ELSE 0)
    /\ \A i \in 1..Len(def.fields) : Len(vals[i]) = def.fields[i].len
VarLen(def, vals) == vals[Len(def.fields) + 1][1]

EncodeErr(def, ver) ==
    CASE ver \notin {1, 2} -> "version"
      [] def.id > 255 /\ ver = 1 -> "enc2in1"
      [] OTHER -> ""

Encode(def, ver, vals) ==
    LET full == FullPayload(def, vals)
        p    == IF def.var THEN SubSeq(full, 1, VarHdr + VarLen(def, vals))
                ELSE IF ver = 1 THEN SubSeq(full, 1, def.base) ELSE full
    IN  IF ver = 2 THEN Trim(p) ELSE p

DecodeErr(def, ver) ==
    IF def.id > 255 /\ ver = 1 THEN "dec2in1" ELSE ""

\* defined for payloads of at most def.max bytes
Decode(def, payload) ==
    LET padded == FitTo(payload, def.max)
        vals   == [ i \in 1..Len(def.fields) |->
                      Swap(Slice(padded, def.fields[i].off, def.fields[i].len), def.fields[i].size) ]
        n      == IF Len(payload) > VarHdr THEN Len(payload) - VarHdr ELSE 0
    IN  IF def.var THEN Append(vals, <<n>>) ELSE vals

\* what survives a round trip through version ver
Survives(def, ver, vals) ==
    IF def.var
    THEN Decode(def, Encode(def, ver, vals))
    ELSE [ i \in 1..Len(def.fields) |->
             IF ver = 1 /\ def.fields[i].ext THEN Zeros(def.fields[i].len) ELSE vals[i] ]

\* A floating point conversion may set the quiet bit of a NaN; otherwise values are equal.
ElemNaN(e) ==
    IF Len(e) = 4 THEN e[1] % 128 = 127 /\ e[2] >= 128 /\ (e[2] > 128 \/ e[3] > 0 \/ e[4] > 0)
    ELSE e[1] % 128 = 127 /\ e[2] >= 240 /\ (e[2] > 240 \/ \E i \in 3..8 : e[i] > 0)
SameValue(fd, a, b) ==
    a = b \/ /\ fd.real
             /\ Len(a) = Len(b)
             /\ \A k \in 0..(fd.count - 1) :
                  LET x == Slice(a, k * fd.size, fd.size)
                      y == Slice(b, k * fd.size, fd.size)
                  IN  x = y \/ (ElemNaN(x) /\ ElemNaN(y))
SameVals(def, a, b) ==
    /\ Len(a) = Len(b)
    /\ \A i \in 1..Len(def.fields) : SameValue(def.fields[i], a[i], b[i])
    /\ (def.var => a[Len(a)] = b[Len(b)])

\* protocol version a decoded message reports
ReportedVersion(def, ver) == IF ver = 2 /\ def.hasext THEN 2 ELSE 1

---------------------------------------------------------------------------
\* Text fields of n bytes.
TextStored(s, n) == FitTo(SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n), n)
TextRead(bytes) == UpToNul(bytes)
TextErr(s, n) == IF Len(s) > n THEN "toolong" ELSE ""
=============================================================================
