-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Messages, frames, encoded payloads and unknown messages as they lie in  *)
(* memory: a message holds its value itself, everything else refers to a   *)
(* cell.  Beside each object stands what a user may take it to hold        *)
(* (`want`), by the rules of TraceCalls!Effect: an operation makes one     *)
(* object or changes one object and touches no other.  The invariant is    *)
(* that memory agrees.  Bugs are ways of saving an allocation that break   *)
(* it.                                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS MaxOps, MaxObjs, Vals, Bug

None == 0

VARIABLES
    cells,  \* contents of the cells, in order of allocation
    objs,   \* [t, v, c]: type, value (messages), cell (others); m: a message's own encoding cell
    want,   \* what each object is to hold
    n       \* operations so far
vars == <<cells, objs, want, n>>

Obj(t, v, c) == [t |-> t, v |-> v, c |-> c, m |-> None]
Value(o) == IF objs[o].t = "msg" THEN objs[o].v ELSE cells[objs[o].c]
Of(ts) == { o \in 1..Len(objs) : objs[o].t \in ts }
Room == Len(objs) < MaxObjs
Fresh == Len(cells) + 1

Init == cells = <<>> /\ objs = <<>> /\ want = <<>> /\ n = 0

New == /\ Room
       /\ objs' = Append(objs, Obj("msg", 0, None))
       /\ want' = Append(want, 0)
       /\ UNCHANGED cells

\* copying a message copies the struct: what it refers to is then shared
Dup == \E o \in Of({"msg"}) :
       /\ Room
       /\ objs' = Append(objs, objs[o])
       /\ want' = Append(want, want[o])
       /\ UNCHANGED cells

Set == \E o \in Of({"msg"}), v \in Vals :
       /\ objs' = [objs EXCEPT ![o].v = v]
       /\ want' = [want EXCEPT ![o] = v]
       /\ UNCHANGED cells

\* Write and GetFrame: the message's value in a cell of its own
Encode(t) ==
       \E o \in Of({"msg"}) :
       /\ Room
       /\ want' = Append(want, want[o])
       /\ IF Bug = "reuse" /\ objs[o].m # None       \* the message's encoding buffer, used again
          THEN /\ cells' = [cells EXCEPT ![objs[o].m] = objs[o].v]
               /\ objs' = Append(objs, Obj(t, 0, objs[o].m))
          ELSE IF Bug = "memo" /\ objs[o].m # None   \* the encoding it had the first time
          THEN /\ cells' = Append(cells, cells[objs[o].m])
               /\ objs' = Append(objs, Obj(t, 0, Fresh))
          ELSE IF Bug = "empty" /\ objs[o].v = 0 /\ \E x \in Of({"raw", "frame"}) : cells[objs[x].c] = 0
          THEN \* one shared encoding of the message without values
               /\ objs' = Append(objs, Obj(t, 0, objs[CHOOSE x \in Of({"raw", "frame"}) : cells[objs[x].c] = 0].c))
               /\ UNCHANGED cells
          ELSE /\ cells' = Append(cells, objs[o].v)
               /\ objs' = Append([objs EXCEPT ![o].m = IF Bug \in {"reuse", "memo"} THEN Fresh ELSE None], Obj(t, 0, Fresh))

\* GetMessage: a message, or an unknown message with the payload copied
Decode(t) ==
       \E f \in Of({"frame"}) :
       /\ Room
       /\ want' = Append(want, want[f])
       /\ IF t = "msg"
          THEN objs' = Append(objs, Obj("msg", Value(f), None)) /\ UNCHANGED cells
          ELSE IF Bug = "alias"
          THEN objs' = Append(objs, Obj("unk", 0, objs[f].c)) /\ UNCHANGED cells
          ELSE objs' = Append(objs, Obj("unk", 0, Fresh)) /\ cells' = Append(cells, Value(f))

\* Read into a message there is
Read == \E f \in Of({"frame"}), o \in Of({"msg", "unk"}) :
       /\ want' = [want EXCEPT ![o] = want[f]]
       /\ IF objs[o].t = "msg"
          THEN /\ objs' = IF Bug = "keep" /\ Value(f) = 0 THEN objs   \* what was truncated keeps its old value
                          ELSE [objs EXCEPT ![o].v = Value(f)]
               /\ UNCHANGED cells
          ELSE IF Bug = "into"                       \* into the bytes the message has
          THEN cells' = [cells EXCEPT ![objs[o].c] = Value(f)] /\ UNCHANGED objs
          ELSE cells' = Append(cells, Value(f)) /\ objs' = [objs EXCEPT ![o].c = Fresh]

\* a user copies an unknown message: by the language's rules both then share its bytes
Share == \E o \in Of({"unk"}) :
       /\ Room
       /\ \A x \in 1..Len(objs) : x # o => objs[x].c # objs[o].c
       /\ objs' = Append(objs, objs[o])
       /\ want' = Append(want, want[o])
       /\ UNCHANGED cells

Mates(o) == { x \in 1..Len(objs) : objs[x].t = "unk" /\ objs[o].t = "unk" /\ objs[x].c = objs[o].c }

Poke == \E o \in Of({"raw", "frame", "unk"}), v \in Vals :
       /\ cells' = [cells EXCEPT ![objs[o].c] = v]
       /\ want' = [x \in 1..Len(want) |-> IF x = o \/ x \in Mates(o) THEN v ELSE want[x]]
       /\ UNCHANGED objs

\* appending behind the bytes: into spare capacity, if there is any
Grow == \E o \in Of({"raw", "frame", "unk"}), v \in Vals :
       /\ cells' = IF Bug = "slab" /\ objs[o].c < Len(cells) THEN [cells EXCEPT ![objs[o].c + 1] = v] ELSE cells
       /\ UNCHANGED <<objs, want>>

Next == /\ n < MaxOps
        /\ n' = n + 1
        /\ \/ New \/ Dup \/ Set
           \/ \E t \in {"raw", "frame"} : Encode(t)
           \/ \E t \in {"msg", "unk"} : Decode(t)
           \/ Read \/ Share \/ Poke \/ Grow

Spec == Init /\ [][Next]_vars

Values == \A o \in 1..Len(objs) : Value(o) = want[o]
\* objects other than copies of one unknown message share no memory
Apart == \A x, y \in Of({"raw", "frame", "unk"}) :
           x # y /\ objs[x].c = objs[y].c => objs[x].t = "unk" /\ objs[y].t = "unk"
=============================================================================
