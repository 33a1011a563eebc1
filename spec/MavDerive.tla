----------------------------- MODULE MavDerive ------------------------------
(***************************************************************************)
(* The message definitions of the ten shipped dialects.                     *)
(*                                                                          *)
(* mavlink_defs.json holds what a MAVLink XML definition holds: message ID, *)
(* message name, and per field its name, wire type, array length and        *)
(* whether it is an extension.  Everything else is derived here by the      *)
(* rules of the MAVLink serialisation guide: the field order on the wire,   *)
(* every offset, the payload lengths and the CRC seed.                      *)
(***************************************************************************)
EXTENDS MavBytes, Json, TLC, IOUtils

RawDefs == JsonDeserialize("mavlink_defs.json")

TypeSizes ==
    [ double |-> 8, uint64_t |-> 8, int64_t |-> 8,
      float |-> 4, uint32_t |-> 4, int32_t |-> 4,
      uint16_t |-> 2, int16_t |-> 2,
      uint8_t |-> 1, int8_t |-> 1, char |-> 1 ]
TypeSize(t) == TypeSizes[t]

Space == <<32>>

\* The CRC seed: checksum over "NAME " and, per base field in wire order,
\* "type name " and the array length if it is an array; folded to one byte.
FieldSig(f) ==
    f.typeb \o Space \o f.nameb \o Space \o (IF f.array THEN <<f.count>> ELSE <<>>)

FieldLen(f) == TypeSize(f.type) * f.count

\* << 0, |s1|, |s1|+|s2|, ... >>
Offsets(w) == FoldLeft(LAMBDA acc, f : Append(acc, acc[Len(acc)] + FieldLen(f)), <<0>>, w)

\* base fields by decreasing type size, otherwise as defined; then the extensions
WireOrder(fs) ==
    LET base(n) == SelectSeq(fs, LAMBDA f : ~f.ext /\ TypeSize(f.type) = n)
    IN  base(8) \o base(4) \o base(2) \o base(1) \o SelectSeq(fs, LAMBDA f : f.ext)

Derive(m) ==
    LET w    == TLCEval(WireOrder(m.fields))
        base == TLCEval(SelectSeq(w, LAMBDA f : ~f.ext))
        offs == TLCEval(Offsets(w))
        c    == TLCEval(FoldLeft(LAMBDA acc, f : CrcFrom(acc, FieldSig(f)),
                                 Crc(m.nameb \o Space), base))
    IN  [ id      |-> m.id,
          go      |-> m.go,
          reg     |-> m.registered,
          var     |-> m.variable,
          hasext  |-> Len(base) # Len(w),
          crc     |-> (c % 256) ^^ (c \div 256),
          base    |-> offs[Len(base) + 1],
          \* by library convention the variable payload of V2_EXTENSION may be empty
          min     |-> IF m.variable THEN 5 ELSE offs[Len(base) + 1],
          max     |-> offs[Len(w) + 1],
          \* the wire: which field comes when
          wire    |-> FoldLeft(LAMBDA acc, f :
                        Append(acc, CHOOSE i \in 1..Len(w) : m.fields[i].name = f.name), <<>>, w),
          \* fields in the order of m.fields, with their wire position
          fields  |-> FoldLeft(LAMBDA acc, f :
                        LET k == CHOOSE j \in 1..Len(w) : w[j].name = f.name
                        IN  Append(acc,
                            [ go    |-> f.go,
                              size  |-> TypeSize(f.type),
                              count |-> f.count,
                              len   |-> FieldLen(f),
                              off   |-> offs[k],
                              ext   |-> f.ext,
                              real  |-> f.type \in {"float", "double"},
                              text  |-> f.type = "char" /\ f.array ]), <<>>, m.fields) ]

\* the known messages of a dialect, by ID (as text: the keys of a JSON object)
DefsOf(ms) ==
    LET reg == { i \in 1..Len(ms) : ms[i].registered }
    IN  TLCEval([ k \in { ToString(ms[i].id) : i \in reg } |->
            Derive(ms[CHOOSE i \in reg : ToString(ms[i].id) = k]) ])

Derived ==
    LET raw == TLCEval(RawDefs)
    IN  TLCEval([ d \in { raw[i].name : i \in 1..Len(raw) } |->
            DefsOf(raw[CHOOSE i \in 1..Len(raw) : raw[i].name = d].messages) ])

Sane(all) ==
    \A d \in DOMAIN all : \A k \in DOMAIN all[d] :
        LET m == TLCEval(all[d][k])
        IN  /\ m.max \in 1..255
            /\ m.base <= m.max
            /\ (m.hasext => m.base < m.max)
            \* the fields tile the payload
            /\ \A j \in 1..Len(m.wire) :
                  m.fields[m.wire[j]].off =
                    IF j = 1 THEN 0
                    ELSE m.fields[m.wire[j-1]].off + m.fields[m.wire[j-1]].len

\* evaluated once; every other module reads the result (MavSchema)
VARIABLE done
Init == done = LET all == Derived IN Sane(all) /\ JsonSerialize(IOEnv.TABLES, all)
Next == UNCHANGED done
Spec == Init /\ [][Next]_done
Written == done
=============================================================================
