----------------------------- MODULE TraceCalls -----------------------------
(***************************************************************************)
(* Conformance of the sequential parts of the library.                      *)
(*                                                                          *)
(* The trace is a set of runs; a run is a sequence of recorded calls (its   *)
(* steps).  Calls on a stateful object (checksum, message with text fields, *)
(* variable payload) form one run, in which st is the abstract state of the *)
(* object; each step is an action of that object.  A step the specification *)
(* does not allow violates the invariant StepsConform.                      *)
(***************************************************************************)
EXTENDS MavCodec

Runs == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES r,   \* run
          i,   \* the step of it under judgement (0: not started)
          st   \* state, before that step, of the object the run is about

vars == <<r, i, st>>

---------------------------------------------------------------------------
(* Codec                                                                    *)

DefOf(e) == Def(e.d, e.id)

\* C12, C22: decoding of a payload of a length the definition allows
DecodeConforms(e) ==
    LET def == DefOf(e)
    IN  Len(e.payload) <= (IF e.ver = 1 THEN def.base ELSE def.max) \/ def.var =>
          /\ e.err = DecodeErr(def, e.ver)
          /\ e.err = "" => /\ SameVals(def, e.vals, Decode(def, e.payload))
                           /\ e.rver = ReportedVersion(def, e.ver)

\* C12: encode, then decode
CodecConforms(e) ==
    LET def == DefOf(e)
    IN  /\ e.err = ""
        /\ ValueLens(def, e.vals) /\ SameVals(def, e.vals, e.want)
        /\ e.ver = 1 => Len(e.payload) = (IF def.var THEN VarHdr + VarLen(def, e.vals) ELSE def.base)
        /\ e.ver = 2 => /\ Len(e.payload) \in 1..def.max
                        /\ Len(e.payload) = 1 \/ e.payload[Len(e.payload)] # 0
        /\ e.derr = ""
        /\ SameVals(def, e.back, Survives(def, e.ver, e.vals))
        /\ e.rver = ReportedVersion(def, e.ver)

\* C13: the exact bytes
EncodeConforms(e) ==
    LET def == DefOf(e)
    IN  /\ e.err = ""
        /\ ValueLens(def, e.vals) /\ SameVals(def, e.vals, e.want)
        /\ e.payload = Encode(def, e.ver, e.vals)

MetaConforms(e) ==
    LET m == MetaIn([n |-> e.d], e.id)
    IN  IF m.k = "ok"
        THEN e.err = "" /\ e.crc = m.crc /\ e.min = m.min /\ e.max = m.max
        ELSE e.err = "unknown"

IdentConforms(e) ==
    /\ e.err = ""
    /\ e.mid = e.id
    /\ e.dialect = e.d
    /\ e.name = DefOf(e).go
    /\ e.go = DefOf(e).go

KnownConforms(e) ==
    /\ e.bad = 0
    /\ Range(e.ids) = KnownIDs(e.d)
    /\ Range(e.mids) = KnownIDs(e.d)

---------------------------------------------------------------------------
(* Building frames                                                          *)

AccConforms(a, f) ==
    /\ ~a.panic
    /\ a.ver = Version(f) /\ a.len = PLen(f) /\ a.seq = SeqNo(f)
    /\ a.sys = SysId(f) /\ a.comp = CompId(f) /\ a.id = MsgId(f)
    /\ a.crc = Checksum(f) /\ a.payload = Payload(f) /\ a.crcin = CrcInput(f)
    /\ a.bytes = f
    /\ Version(f) = 2 => /\ a.inc = IncFlags(f) /\ a.compat = CompatFlags(f)
                         /\ a.signil = ~IsSigned(f)
                         /\ IsSigned(f) => a.sig = Signature(f)

\* C11
GetFrameConforms(e) ==
    LET def == DefOf(e)
        m   == Lookup(e.dl, e.id)
    IN  /\ e.err = "" /\ e.perr = ""
        /\ e.f = Build(e.ver, e.sys, e.comp, e.seq, e.id, e.payload, m.crc)
        /\ ~e.acc.panic
        /\ e.acc.ver = e.ver /\ e.acc.sys = e.sys /\ e.acc.comp = e.comp
        /\ e.acc.seq = e.seq /\ e.acc.id = e.id /\ e.acc.len = Len(e.payload)
        /\ e.acc.payload = e.payload
        /\ e.verr = ""
        /\ e.derr = "" /\ e.mid = e.id
        /\ SameVals(def, e.back, Survives(def, e.ver, e.vals))

\* a message of a test dialect, with any CRC seed
BuildStubConforms(e) ==
    /\ e.err = "" /\ e.verr = ""
    /\ e.f = Build(e.ver, e.sys, e.comp, e.seq, e.id, e.raw, Lookup(e.dl, e.id).crc)

\* frames built earlier are as they were
StableConforms(e) == e.is = e.was

\* C14
EncVerConforms(e) ==
    LET want == EncodeErr(DefOf(e), e.ver)
    IN  e.err = want /\ (want # "" => e.plen = 0)
FrameVerConforms(e) ==
    LET want == EncodeErr(DefOf(e), e.ver)
    IN  /\ want # "" => e.err = want
        /\ e.err = "" => /\ Len(e.f) >= 3 /\ Complete(e.f)
                         /\ MsgId(e.f) = e.id /\ Version(e.f) = e.ver
Read1Conforms(e) == e.err = DecodeErr(DefOf(e), 1)
\* a message of a test dialect: any ID, any payload length
StubFrameConforms(e) ==
    /\ e.ver \notin {1, 2} => e.err = "version"
    /\ e.ver = 1 /\ e.id > 255 => e.err = "enc2in1"
    /\ e.id > 16777215 \/ Len(e.raw) > 255 => e.err # ""
    /\ e.err # "panic"
    /\ e.err = "" => /\ Len(e.f) >= 3 /\ Complete(e.f)
                     /\ Version(e.f) = e.ver /\ MsgId(e.f) = e.id
                     /\ Payload(e.f) = e.raw

---------------------------------------------------------------------------
(* Taking a frame from bytes                                                *)

FromBytesConforms(e) ==
    LET want == CASE e.raw = <<>> -> "frameshort"
                  [] e.raw # <<>> /\ ~IsStart(e.raw[1]) -> "start"
                  [] OTHER -> ""
        first == SubSeq(e.raw, 1, e.n)
    IN  /\ e.err = want
        /\ e.src = e.raw
        /\ \A k \in 1..Len(e.behind) : e.behind[k] = 167
        /\ want # "" => e.kind = 0
        /\ want = "" =>
             /\ e.kind = (IF e.raw[1] = V1Start THEN 1 ELSE 2)
             /\ IF e.copy
                THEN e.bytes = first /\ e.again = first /\ e.src2 = e.was
                ELSE Len(e.bytes) >= e.n /\ SubSeq(e.bytes, 1, e.n) = first

---------------------------------------------------------------------------
(* Text forms, read back line by line: names, and values                    *)

ShownOnce(lines, n) == Cardinality({ k \in 1..Len(lines) : lines[k].n = n }) = 1
Shown(lines, n) == lines[CHOOSE k \in 1..Len(lines) : lines[k].n = n]

ShowConforms(e) ==
    LET def    == DefOf(e)
        shown  == { k \in 1..Len(def.fields) : ~def.fields[k].ext \/ e.ext }
    IN  /\ ~e.panic /\ e.after = e.vals
        /\ Len(e.lines) = Cardinality(shown) + (IF def.var THEN 1 ELSE 0)
        /\ e.head = <<"Name", e.d \o "/" \o def.go>>
        /\ \A k \in shown :
             /\ ShownOnce(e.lines, def.fields[k].go)
             /\ SameValue(def.fields[k], Shown(e.lines, def.fields[k].go).v, e.vals[k])
        /\ def.var => /\ ShownOnce(e.lines, "PayloadLength")
                      /\ Shown(e.lines, "PayloadLength").v = <<VarLen(def, e.vals)>>

ShowsNumbers(e, want) ==
    \A n \in DOMAIN want : ShownOnce(e.lines, n) /\ Shown(e.lines, n).x = want[n]

ShowFrameConforms(e) ==
    LET f == e.f
        base == [Version |-> Version(f), MessageLength |-> PLen(f), SenderSystemID |-> SysId(f),
                 SenderComponentID |-> CompId(f), MessageID |-> MsgId(f), Checksum |-> Checksum(f)]
        two == [IncompatibilityFlags |-> IncFlags(f), CompatibilityFlags |-> CompatFlags(f)]
    IN  /\ ~e.panic /\ e.f2 = f
        /\ ShowsNumbers(e, base)
        /\ Version(f) = 1 => Len(e.lines) = 6
        /\ Version(f) = 2 =>
             /\ ShowsNumbers(e, two)
             /\ ShownOnce(e.lines, "Signed")
             /\ Shown(e.lines, "Signed").t = (IF IsSigned(f) THEN "true" ELSE "false")
             /\ Len(e.lines) = (IF IsSigned(f) THEN 10 ELSE 9)
             /\ IsSigned(f) => ShownOnce(e.lines, "Signature") /\ Shown(e.lines, "Signature").v = Signature(f)

ShowUnknownConforms(e) ==
    /\ ~e.panic /\ Len(e.lines) = 3
    /\ ShowsNumbers(e, [ID |-> MsgId(e.f), Version |-> Version(e.f)])
    /\ ShownOnce(e.lines, "Raw") /\ Shown(e.lines, "Raw").v = Payload(e.f)

---------------------------------------------------------------------------
(* Dialect lists                                                            *)

\* building for any version: who decides comes first, then what fits
BuildsConform(e, id, k, m) ==
    \A j \in 1..Len(e.builds) :
      LET b == e.builds[j]
          unfit == CASE b.ver \notin {1, 2} -> "version"
                     [] b.ver = 1 /\ id > 255 -> "enc2in1"
                     [] OTHER -> ""
          want == CASE k = 0 -> "unknown"
                    [] k # 0 /\ m.k = "other" -> "other"
                    [] OTHER -> unfit
      IN  /\ b.err = want \/ (unfit # "" /\ b.err = unfit)
          /\ b.err = "" => b.f = Build(b.ver, 1, 2, 3, id, <<1, 2, 3>>, m.crc)

ResolvesTo(e) ==
    LET id == MsgId(e.f)
        k  == Decider(e.dl, id)
        d  == e.dl[k]
        m  == Lookup(e.dl, id)
    IN  CASE k = 0 ->
              /\ e.err = "unknown" /\ e.verr = "unknown" /\ e.ferr = "unknown"
              /\ e.kind = "unknown" /\ e.mid = id /\ e.uver = Version(e.f)
              /\ e.raw = Payload(e.f) /\ e.raw2 = e.raw
          [] k # 0 /\ m.k = "other" ->
              e.err = "other" /\ e.verr = "other" /\ e.ferr = "other"
          [] OTHER ->
              /\ e.err = "" /\ e.mid = id
              /\ IF d.n = "stub" THEN e.kind = "stub" /\ e.tag = d.tag
                                 ELSE e.kind = "shipped" /\ e.dname = d.n
              /\ e.verr = (LET v == Verdict(e.dl, e.f) IN IF v = "ok" THEN "" ELSE v)
              /\ e.ferr = "" /\ e.ff = Build(2, 1, 2, 3, id, <<1, 2, 3>>, m.crc)

ResolveConforms(e) ==
    /\ ResolvesTo(e)
    /\ BuildsConform(e, MsgId(e.f), Decider(e.dl, MsgId(e.f)), Lookup(e.dl, MsgId(e.f)))

---------------------------------------------------------------------------
(* Validation                                                               *)

ErrOf(v) == IF v = "ok" THEN "" ELSE v

ValidateConforms(e) == e.err = ErrOf(Verdict(e.dl, e.f)) /\ e.f2 = e.f

FlipsConform(e) ==
    /\ Verdict(e.dl, e.f) = "ok"
    /\ \A k \in 1..Len(e.flips) :
         LET p == e.flips[k][1]
             g == [e.f EXCEPT ![p + 1] = @ ^^ e.flips[k][2]]
         IN  e.flips[k][3] # "" /\ e.flips[k][3] = Verdict(e.dl, g)

---------------------------------------------------------------------------
(* Hostile frames                                                           *)

HostileConforms(e) ==
    LET id == MsgId(e.f)
        k  == Decider(e.dl, id)
        p  == Payload(e.f)
    IN  /\ e.panic = "" /\ e.f2 = e.f
        /\ IF k = 0
           THEN e.err = "unknown" /\ e.kind = "unknown" /\ e.mid = id /\ e.raw = p
           ELSE LET def == Def(e.dl[k].n, id)
                IN  /\ e.kind = "msg" => e.mid = id
                    /\ e.err = "" => e.kind = "msg"
                    /\ e.err \in {"", "short", "long", "crc", "unknown", "private", "version", "dec2in1", "frameshort"}
                    /\ Len(p) <= (IF Version(e.f) = 1 THEN def.base ELSE def.max) =>
                         e.err = "" /\ SameVals(def, e.vals, Decode(def, p))

---------------------------------------------------------------------------
(* Stateful objects: checksum, text fields, variable payload                *)

\* text: st is the vector of field values, with the definition
TextStep(e) ==
    CASE e.op = "text.init" ->
           TRUE
      [] e.op = "text.get" ->
           ~e.panic /\ e.vals = st.vals /\ e.got = TextRead(st.vals[e.field])
      [] e.op = "text.set" ->
           LET n   == st.def.fields[e.field].len
               old == st.vals
               t   == IF Len(e.text) < n THEN e.text ELSE SubSeq(e.text, 1, n)
               new == e.vals[e.field]
           IN  /\ ~e.panic
               /\ e.err = TextErr(e.text, n)
               /\ e.got = UpToNul(t)
               /\ Len(e.vals) = Len(old)
               /\ \A k \in 1..Len(old) : k # e.field => e.vals[k] = old[k]
               /\ Len(new) = n
               \* what lies between a NUL in the text and its end is not visible
               /\ UpToNul(new) = UpToNul(t)
               /\ \A k \in (Len(t) + 1)..n : new[k] = 0

ExtCap == 249
ExtStep(e) ==
    CASE e.op = "ext.init" -> TRUE
      [] e.op = "ext.set" ->
           /\ ~e.panic
           /\ e.err = TextErr(e.payload, ExtCap)
           /\ e.got = SubSeq(e.payload, 1, IF Len(e.payload) < ExtCap THEN Len(e.payload) ELSE ExtCap)
      [] e.op = "ext.read" ->
           /\ ~e.panic
           /\ e.err = "" /\ Len(e.payload) <= VarHdr + ExtCap =>
                e.got = SubSeq(e.payload, VarHdr + 1, Len(e.payload))

---------------------------------------------------------------------------
(* Messages, frames and payloads: st.objs is what each of them holds.  An   *)
(* operation makes at most one object and changes at most one.              *)

Msg(d, id, vals, two) == [t |-> "msg", d |-> d, id |-> id, vals |-> vals, two |-> two]
Bytes(t, b) == [t |-> t, b |-> b]
UnkOf(f) == [t |-> "unk", id |-> MsgId(f), ver |-> Version(f), b |-> Payload(f)]
ZeroVals(def) == Decode(def, <<>>)
MsgOf(d, f) == LET def == Def(d, MsgId(f)) IN Msg(d, def.id, Decode(def, Payload(f)), ReportedVersion(def, Version(f)) = 2)

\* [o: the object it changes (0: none), to: what it is then, make, err]
Nothing == [o |-> 0, to |-> Bytes("raw", <<>>), make |-> <<>>, err |-> ""]
Makes(x) == [Nothing EXCEPT !.make = <<x>>]
Fails(err) == [Nothing EXCEPT !.err = err]
Turns(o, x) == [Nothing EXCEPT !.o = o, !.to = x]

Effect(objs, e) ==
  CASE e.op = "o.new"  -> Makes(Msg(e.d, e.id, ZeroVals(DefOf(e)), FALSE))
    [] e.op = "o.set"  -> Turns(e.o, [objs[e.o] EXCEPT !.vals = e.vals])
    [] e.op = "o.flag" -> Turns(e.o, [objs[e.o] EXCEPT !.two = e.v])
    [] e.op = "o.enc"  ->
         LET x == objs[e.o]
             def == Def(x.d, x.id)
             err == EncodeErr(def, e.ver)
         IN  IF err # "" THEN Fails(err) ELSE Makes(Bytes("raw", Encode(def, e.ver, x.vals)))
    [] e.op = "o.build" /\ objs[e.o].t = "unk" ->
         LET x == objs[e.o]
             m == Lookup(e.dl, x.id)
         IN  IF m.k # "ok" THEN Fails(m.k)
             ELSE Makes(Bytes("frame", Build(e.ver, e.sys, e.comp, e.seq, x.id, x.b, m.crc)))
    [] e.op = "o.build" ->
         LET x == objs[e.o]
             def == Def(x.d, x.id)
             err == EncodeErr(def, e.ver)
         IN  IF err # "" THEN Fails(err)
             ELSE Makes(Bytes("frame", Build(e.ver, e.sys, e.comp, e.seq, x.id, Encode(def, e.ver, x.vals), Lookup(e.dl, x.id).crc)))
    [] e.op = "o.wrap" ->
         [Nothing EXCEPT !.make = <<Bytes("raw", e.b), [t |-> "unk", id |-> e.id, ver |-> e.ver, b |-> SubSeq(e.b, 1, e.n)]>>]
    [] e.op = "o.take" -> Makes(Bytes("frame", e.b))
    [] e.op = "o.dec"  ->
         LET f == objs[e.f].b
             k == Decider(e.dl, MsgId(f))
         IN  IF k = 0 THEN [Makes(UnkOf(f)) EXCEPT !.err = "unknown"]
             ELSE LET err == DecodeErr(Def(e.dl[k].n, MsgId(f)), Version(f))
                  IN  IF err # "" THEN Fails(err) ELSE Makes(MsgOf(e.dl[k].n, f))
    [] e.op = "o.read" ->
         LET f == objs[e.f].b
             x == objs[e.o]
         IN  IF x.t = "unk" THEN Turns(e.o, UnkOf(f))
             ELSE LET err == DecodeErr(Def(x.d, x.id), Version(f))
                  IN  IF err # "" THEN Fails(err) ELSE Turns(e.o, MsgOf(x.d, f))
    [] e.op = "o.poke" -> Turns(e.o, [objs[e.o] EXCEPT !.b[e.at] = e.v])
    [] e.op = "o.dup"  -> Makes(objs[e.o])
    [] e.op = "o.text" ->
         LET x == objs[e.o]
             n == Def(x.d, x.id).fields[e.field].len
         IN  [Turns(e.o, [x EXCEPT !.vals[e.field] = TextStored(e.text, n)]) EXCEPT !.err = TextErr(e.text, n)]
    [] e.op \in {"o.grow", "o.look"} -> Nothing

SameObject(x, y) ==
    /\ x.t = y.t
    /\ IF x.t = "msg" THEN /\ x.d = y.d /\ x.id = y.id /\ x.two = y.two
                           /\ SameVals(Def(x.d, x.id), x.vals, y.vals)
       ELSE x = y

ObjStep(e) ==
    LET w == Effect(st.objs, e)
    IN  /\ e.err = w.err
        /\ Len(e.made) = Len(w.make)
        /\ \A k \in 1..Len(w.make) : SameObject(e.made[k], w.make[k])
        \* nothing else has changed
        /\ \A k \in 1..Len(e.diff) : e.diff[k].o = w.o /\ SameObject(e.diff[k].v, w.to)
        \* and that has (a frame's Bytes may as well be a copy)
        /\ w.o # 0 /\ e.diff = <<>> => (SameObject(st.objs[w.o], w.to) \/ (e.op = "o.poke" /\ w.to.t = "frame"))

CrcStep(e) ==
    CASE e.op = "crc.reset" -> TRUE
      [] e.op = "crc.write" -> e.n = Len(e.b) /\ e.err = "" /\ e.b2 = e.b
      [] e.op = "crc.sum" -> /\ e.out = e.pre \o ToLE16(st.crc)
                             /\ e.pre2 = e.pre /\ \A k \in 1..Len(e.behind) : e.behind[k] = 167

---------------------------------------------------------------------------

CallStep(e) ==
    CASE e.op = "codec"     -> CodecConforms(e)
      [] e.op = "decode"    -> DecodeConforms(e)
      [] e.op = "encode"    -> EncodeConforms(e)
      [] e.op = "meta"      -> MetaConforms(e)
      [] e.op = "ident"     -> IdentConforms(e)
      [] e.op = "known"     -> KnownConforms(e)
      [] e.op = "getframe"  -> GetFrameConforms(e)
      [] e.op = "encver"    -> EncVerConforms(e)
      [] e.op = "framever"  -> FrameVerConforms(e)
      [] e.op = "read1"     -> Read1Conforms(e)
      [] e.op = "buildstub" -> BuildStubConforms(e)
      [] e.op = "stubframe" -> StubFrameConforms(e)
      [] e.op = "resolve"   -> ResolveConforms(e)
      [] e.op = "validate"  -> ValidateConforms(e)
      [] e.op = "flips"     -> FlipsConform(e)
      [] e.op = "acc"       -> e.made /\ AccConforms(e.acc, e.f) /\ e.str /\ e.f2 = e.f
      [] e.op = "hostile"   -> HostileConforms(e)
      [] e.op = "frombytes" -> FromBytesConforms(e)
      [] e.op = "show"      -> ShowConforms(e)
      [] e.op = "showframe" -> ShowFrameConforms(e)
      [] e.op = "showunknown" -> ShowUnknownConforms(e)
      [] e.op = "stable"    -> StableConforms(e)
      [] e.op = "setters"   -> TRUE

Step(e) ==
    CASE Runs[r].k = "calls" -> CallStep(e)
      [] Runs[r].k = "crc"   -> CrcStep(e)
      [] Runs[r].k = "text"  -> TextStep(e)
      [] Runs[r].k = "ext"   -> ExtStep(e)
      [] Runs[r].k = "objects" -> ObjStep(e)

Apply(e) ==
    CASE e.op = "crc.reset" -> [crc |-> CrcInit]
      [] e.op = "crc.write" -> [crc |-> CrcFrom(st.crc, e.b)]
      [] e.op = "text.init" -> [def |-> DefOf(e), vals |-> e.vals]
      [] e.op = "text.set"  -> [st EXCEPT !.vals = e.vals]
      [] Runs[r].k = "objects" ->
           [objs |-> [ k \in 1..Len(st.objs) |-> IF \E x \in 1..Len(e.diff) : e.diff[x].o = k
                                                  THEN e.diff[CHOOSE x \in 1..Len(e.diff) : e.diff[x].o = k].v
                                                  ELSE st.objs[k] ] \o e.made]
      [] OTHER -> st

Init == /\ r \in 1..Len(Runs)
        /\ i = 0
        /\ st = IF Runs[r].k = "objects" THEN [objs |-> <<>>] ELSE [crc |-> 0]

Next == /\ i < Len(Runs[r].steps)
        /\ i' = i + 1
        /\ st' = IF i = 0 THEN st ELSE Apply(Runs[r].steps[i])
        /\ UNCHANGED r

Spec == Init /\ [][Next]_vars

StepsConform == i > 0 => Step(Runs[r].steps[i])
=============================================================================
