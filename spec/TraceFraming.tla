---------------------------- MODULE TraceFraming ----------------------------
(***************************************************************************)
(* Conformance of the framing.  A record of the trace is                    *)
(*   C01, C02: one strict stream: dl, input, steps; a step is what had      *)
(*     arrived (a) when the stream had come to rest, and the frames it had  *)
(*     delivered since the step before (o)                                  *)
(*   C03: several streams over one input, cut differently                   *)
(*   C04: a lenient and a strict stream over one input                      *)
(* The reference scanner (Scan) walks the input; j counts the recorded      *)
(* frames it has accounted for.                                             *)
(***************************************************************************)
EXTENDS MavFrame

Recs == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

ValidIn(c, f) == Verdict(c, f) = "ok"

S == INSTANCE Scan WITH StartByte <- IsStart, Declared <- DeclLen, Valid <- ValidIn, Look <- 3

VARIABLES r,  \* record
          k,  \* step
          p,  \* scanning position
          j   \* frames of this step accounted for

vars == <<r, k, p, j>>

R == Recs[r].rec

Init == r \in 1..Len(Recs) /\ k = 0 /\ p = 0 /\ j = 0

---------------------------------------------------------------------------
\* C02 and C04: exactly what the reference scanner delivers

\* the steps of the record: for C04 only the final outcome counts
Obs == IF Prop = "C04" THEN << [a |-> Len(R.input), o |-> R.runs[1].o] >> ELSE R.steps
Lenient == Prop = "C04"

What == S!Todo(R.dl, R.input, p, Obs[k].a)
Cand == S!Candidate(R.input, p)

Matches(f) == j < Len(Obs[k].o) /\ Obs[k].o[j + 1] = f

Begin  == k = 0 /\ Len(Obs) > 0 /\ k' = 1 /\ UNCHANGED <<p, j>>
Skip   == /\ k > 0 /\ What = "skip"
          /\ p' = S!NextStart(R.input, p, Obs[k].a) /\ UNCHANGED <<k, j>>
Reject == /\ k > 0 /\ What = "reject"
          /\ IF Lenient THEN Matches(Cand) /\ j' = j + 1 ELSE j' = j
          /\ p' = p + 1 /\ UNCHANGED k
Deliver == /\ k > 0 /\ What = "deliver" /\ Matches(Cand)
           /\ j' = j + 1 /\ p' = p + Len(Cand) /\ UNCHANGED k
Settle == /\ k > 0 /\ What = "wait" /\ j = Len(Obs[k].o) /\ k < Len(Obs)
          /\ k' = k + 1 /\ j' = 0 /\ UNCHANGED p

ExactOk ==
    k > 0 =>
      /\ What = "deliver" => Matches(Cand)
      /\ What = "reject" /\ Lenient => Matches(Cand)
      /\ What = "wait" => j = Len(Obs[k].o)

\* C04: dropping what is invalid leaves what the strict stream delivered
FilterOk ==
    k = 0 /\ Prop = "C04" =>
        SelectSeq(R.runs[1].o, LAMBDA f : Len(f) >= 3 /\ Complete(f) /\ ValidIn(R.dl, f)) = R.runs[2].o

---------------------------------------------------------------------------
\* C01: whatever is delivered is sound.  Position p is behind the last frame
\* delivered; the next one is the first occurrence of its bytes from there on.
Occurs(f, q) == q + Len(f) <= R.steps[k].a /\ SubSeq(R.input, q + 1, q + Len(f)) = f
Between(f, from, to) == { q \in from..to : R.input[q + 1] = f[1] /\ Occurs(f, q) }
\* (looking nearby first)
Places(f) == LET last == R.steps[k].a - Len(f)
                 near == Between(f, p, Min({last, p + 400}))
             IN  IF near # {} THEN near ELSE Between(f, p, last)
Sound(f) == /\ Len(f) >= 3 /\ IsBytes(f) /\ Complete(f) /\ ValidIn(R.dl, f)
            /\ Places(f) # {}

SoundNext ==
    \/ k = 0 /\ Len(R.steps) > 0 /\ k' = 1 /\ UNCHANGED <<p, j>>
    \/ /\ k > 0 /\ j < Len(R.steps[k].o)
       /\ LET f == R.steps[k].o[j + 1]
          IN  Sound(f) /\ p' = Min(Places(f)) + Len(f)
       /\ j' = j + 1 /\ UNCHANGED k
    \/ /\ k > 0 /\ j = Len(R.steps[k].o) /\ k < Len(R.steps)
       /\ k' = k + 1 /\ j' = 0 /\ UNCHANGED p

SoundOk == k > 0 /\ j < Len(R.steps[k].o) => Sound(R.steps[k].o[j + 1])

---------------------------------------------------------------------------
\* C03: all segmentations deliver the same
SameOk == k = 0 => \A i \in 1..Len(R.runs) : R.runs[i].o = R.runs[1].o

---------------------------------------------------------------------------
Next == /\ CASE Prop = "C01" -> SoundNext
             [] Prop = "C03" -> FALSE /\ UNCHANGED <<k, p, j>>
             [] OTHER -> Begin \/ Skip \/ Reject \/ Deliver \/ Settle
        /\ UNCHANGED r

Spec == Init /\ [][Next]_vars

Conforms ==
    CASE Prop = "C01" -> SoundOk
      [] Prop = "C03" -> SameOk
      [] OTHER -> ExactOk /\ FilterOk
=============================================================================
