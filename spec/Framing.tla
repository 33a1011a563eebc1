------------------------------- MODULE Framing -------------------------------
(***************************************************************************)
(* The scanner as the library builds it - a bounded buffer, reads of "at    *)
(* least so many bytes", shifting by one byte or by a frame - against the   *)
(* declarative reference Scan, over all inputs up to N bytes, all ways the  *)
(* transport can cut them, strict and lenient, and all buffer sizes from    *)
(* the longest frame on.                                                    *)
(*                                                                          *)
(* The frame format is a toy with the structure of the real one: a start    *)
(* byte (two of them, with different overhead), a length byte, a flag in    *)
(* the third byte that makes the frame longer (the signature), a body and a *)
(* check byte.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSetsExt, TLC

CONSTANTS N,      \* longest input
          Bytes,  \* byte values, 0..B
          Caps    \* buffer sizes

Long == Max(Bytes)       \* start byte with the longer header
B1 == Max(Bytes) + 1
Short == Long - 1        \* start byte with the shorter header
Bit(b) == b % 2
IsStartB(b) == b \in {Short, Long}
\* overhead 3 (start, length, check) or 4 (start, length, flag, check); a flag adds one byte
Decl(x) == IF x[1] = Long THEN Bit(x[2]) + 4 + (IF x[3] = 1 THEN 1 ELSE 0) ELSE Bit(x[2]) + 3
LookN == 3
MaxFrame == 6
\* the check byte is the one at position (overhead + length), before the "signature"
SumB(f, n) == FoldSet(LAMBDA i, a : a + f[i], 0, 2..n)  % B1
OkB(c, f) == LET n == IF f[1] = Long THEN Bit(f[2]) + 4 ELSE Bit(f[2]) + 3
             IN  f[n] = SumB(f, n - 1)

Ref == INSTANCE Scan WITH StartByte <- IsStartB, Declared <- Decl, Valid <- OkB, Look <- LookN

VARIABLES input,    \* all the transport will ever carry
          lenient,
          cap,
          fed,      \* bytes the transport has made available
          eof,      \* the transport has ended
          got,      \* bytes read into the buffer so far
          buf,      \* buffered bytes
          pc,       \* "look": wants LookN bytes; "body": wants the declared length; "end"
          out

vars == <<input, lenient, cap, fed, eof, got, buf, pc, out>>

Init == /\ input \in UNION { [1..n -> Bytes] : n \in 0..N }
        /\ lenient \in BOOLEAN /\ cap \in Caps
        /\ fed = 0 /\ eof = FALSE /\ got = 0 /\ buf = <<>> /\ pc = "look" /\ out = <<>>

Need == IF pc = "look" THEN LookN ELSE Decl(buf)
Hungry == pc # "end" /\ Len(buf) < Need

Feed == /\ ~eof /\ fed < Len(input)
        /\ \E m \in 1..(Len(input) - fed) : fed' = fed + m
        /\ UNCHANGED <<input, lenient, cap, eof, got, buf, pc, out>>
Eof == /\ ~eof /\ fed = Len(input) /\ eof' = TRUE
       /\ UNCHANGED <<input, lenient, cap, fed, got, buf, pc, out>>

\* one read of the transport: some of what is available, as much as fits
Read == /\ Hungry /\ got < fed
        /\ \E m \in 1..Min({fed - got, cap - Len(buf)}) :
             /\ buf' = buf \o SubSeq(input, got + 1, got + m)
             /\ got' = got + m
        /\ UNCHANGED <<input, lenient, cap, fed, eof, pc, out>>
Ended == /\ Hungry /\ got = fed /\ eof /\ pc' = "end"
         /\ UNCHANGED <<input, lenient, cap, fed, eof, got, buf, out>>

Look == /\ pc = "look" /\ ~Hungry
        /\ IF IsStartB(buf[1]) THEN pc' = "body" /\ UNCHANGED buf
           ELSE buf' = Tail(buf) /\ UNCHANGED pc
        /\ UNCHANGED <<input, lenient, cap, fed, eof, got, out>>
Judge == /\ pc = "body" /\ ~Hungry
         /\ LET f == SubSeq(buf, 1, Decl(buf))
            IN  IF OkB("", f)
                THEN /\ out' = Append(out, f)
                     /\ buf' = SubSeq(buf, Len(f) + 1, Len(buf))
                ELSE /\ out' = IF lenient THEN Append(out, f) ELSE out
                     /\ buf' = Tail(buf)
         /\ pc' = "look"
         /\ UNCHANGED <<input, lenient, cap, fed, eof, got>>

Next == Feed \/ Eof \/ Read \/ Ended \/ Look \/ Judge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Prefix(n) == Ref!Frames("", input, 0, n, lenient)
AtRest == Hungry /\ got = fed

TypeOK == Len(buf) <= cap /\ got <= fed
\* C02, C03: at rest, and at the end, exactly the frames of the prefix are out
Exact == AtRest \/ pc = "end" => out = Prefix(fed)
\* C01: never anything else, in particular nothing that is not valid
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Sound == /\ IsPrefixOf(out, Prefix(got))
         /\ ~lenient => \A i \in 1..Len(out) : OkB("", out[i])
\* C04: what is valid among the lenient frames is what strict mode delivers
Filter == lenient /\ pc = "end" =>
            SelectSeq(out, LAMBDA f : OkB("", f)) = Ref!Frames("", input, 0, fed, FALSE)
\* no valid frame is hidden: a valid frame in the input is delivered unless it
\* begins inside an earlier delivered frame or the input ends inside an earlier candidate
Ends == <>(pc = "end")
=============================================================================
