----------------------------- MODULE FramingGen -----------------------------
(***************************************************************************)
(* Scenarios for the framing driver: every sequence of at most L segment    *)
(* kinds that ends with an intact frame (which must then be found, whatever *)
(* came before).  The driver makes bytes of the kinds.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC

Intact == {"v1", "v2", "v2s"}
Kinds == Intact \cup
         {"crc", "pay", "seed",           \* damaged frames
          "unk", "long", "short",         \* frames the dialects do not allow
          "junk", "noise",                \* no frame at all
          "fs1", "fs2", "cut", "max",     \* beginnings of frames
          "inner",                        \* an invalid frame around an intact one
          "flag",                         \* a signed frame without its signature
         "again", "near", "stale"}       \* frames like an earlier one; stale: damaged

L == IF "GENLEN" \in DOMAIN IOEnv /\ IOEnv.GENLEN = "4" THEN 4 ELSE 3

VARIABLE done
Init == done = FALSE
Next == UNCHANGED done
Spec == Init /\ [][Next]_done

\* all of them at once, written as a side effect of checking the one initial state
All == UNION { { Append(s, f) : s \in [1..n -> Kinds], f \in Intact } : n \in 0..(L - 1) }
Written == JsonSerialize(IOEnv.SCN, SetToSeq(All))
=============================================================================
