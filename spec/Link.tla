--------------------------------- MODULE Link ---------------------------------
(***************************************************************************)
(* Two streams back to back, in all interleavings.  In each direction a     *)
(* producer hands messages to the write loop of one stream, which puts them *)
(* on the link as one piece each; the link holds a few units and may put    *)
(* noise between frames; the read loop of the other stream takes any        *)
(* non-empty part of what is there, scans its buffer, and hands frames to a *)
(* consumer that may hold back for as long as it likes, but not for ever.   *)
(*                                                                          *)
(* A frame is two units, <<"h", m>> and <<"t", m>>; noise is <<"n", 0>>.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N,      \* messages in each direction
          Noise,  \* pieces of noise, on the whole
          Cap,    \* units the link holds
          Bug

Dirs == {"ab", "ba"}

VARIABLES made,   \* messages made so far
          chan,   \* write channel: 0 or the message in it
          wl,     \* units the write loop has still to write
          pipe,   \* units on the link
          buf,    \* units in the scan buffer of the receiving stream
          hand,   \* 0 or the frame waiting for the consumer
          got,    \* messages received
          held,   \* the consumer holds back
          noise, holds,
          scratch \* a buffer that only a mistaken design shares

vars == <<made, chan, wl, pipe, buf, hand, got, held, noise, holds, scratch>>
\* message k of direction d
M(d, k) == IF d = "ab" THEN k ELSE 100 + k

Init == /\ made = [d \in Dirs |-> 0] /\ chan = [d \in Dirs |-> 0] /\ wl = [d \in Dirs |-> <<>>]
        /\ pipe = [d \in Dirs |-> <<>>] /\ buf = [d \in Dirs |-> <<>>] /\ hand = [d \in Dirs |-> 0]
        /\ got = [d \in Dirs |-> <<>>] /\ held = [d \in Dirs |-> FALSE] /\ noise = 0 /\ holds = 0 /\ scratch = 0

Produce(d) ==
  /\ made[d] < N /\ chan[d] = 0
  /\ chan' = [chan EXCEPT ![d] = M(d, made[d] + 1)] /\ made' = [made EXCEPT ![d] = @ + 1]
  /\ UNCHANGED <<wl, pipe, buf, hand, got, held, noise, holds, scratch>>

\* the write loop accepts a frame; it writes it with one call, which may block half way
Accept(d) ==
  /\ chan[d] # 0 /\ wl[d] = <<>>
  /\ wl' = [wl EXCEPT ![d] = << <<"h", chan[d]>>, <<"t", chan[d]>> >>]
  /\ scratch' = chan[d]
  /\ chan' = [chan EXCEPT ![d] = 0]
  /\ UNCHANGED <<made, pipe, buf, hand, got, held, noise, holds>>
Put(d) ==
  /\ wl[d] # <<>> /\ Len(pipe[d]) < Cap
  /\ LET u == IF Bug = "shared" THEN << Head(wl[d])[1], scratch >> ELSE Head(wl[d])
     IN  pipe' = [pipe EXCEPT ![d] = Append(@, u)]
  /\ wl' = [wl EXCEPT ![d] = Tail(@)]
  /\ UNCHANGED <<made, chan, buf, hand, got, held, noise, holds, scratch>>

\* noise only between frames
AtBoundary(d) == IF wl[d] = <<>> THEN TRUE ELSE Head(wl[d])[1] = "h"
MakeNoise(d) ==
  /\ noise < Noise /\ Len(pipe[d]) < Cap /\ AtBoundary(d)
  /\ pipe' = [pipe EXCEPT ![d] = Append(@, <<"n", 0>>)] /\ noise' = noise + 1
  /\ UNCHANGED <<made, chan, wl, buf, hand, got, held, holds, scratch>>

Need(d) ==  \* the units the scanner wants before it goes on
  IF buf[d] = <<>> THEN TRUE ELSE Head(buf[d])[1] = "h" /\ Len(buf[d]) < (IF Bug = "late" THEN 3 ELSE 2)
Fetch(d) ==
  /\ hand[d] = 0 /\ Need(d) /\ pipe[d] # <<>>
  /\ \E k \in 1..Len(pipe[d]) :
       /\ buf' = [buf EXCEPT ![d] = @ \o SubSeq(pipe[d], 1, k)]
       /\ pipe' = [pipe EXCEPT ![d] = SubSeq(@, k + 1, Len(@))]
  /\ UNCHANGED <<made, chan, wl, hand, got, held, noise, holds, scratch>>
Scan(d) ==
  /\ hand[d] = 0 /\ ~Need(d)
  /\ LET b == buf[d]
     IN  IF b[1][1] = "h" /\ b[2] = <<"t", b[1][2]>>
         THEN /\ hand' = [hand EXCEPT ![d] = b[1][2]]
              /\ buf' = [buf EXCEPT ![d] = SubSeq(b, 3, Len(b))]
         ELSE /\ buf' = [buf EXCEPT ![d] = IF Bug = "skip" THEN <<>> ELSE Tail(b)] /\ UNCHANGED hand
  /\ UNCHANGED <<made, chan, wl, pipe, got, held, noise, holds, scratch>>

Consume(d) ==
  /\ hand[d] # 0 /\ ~held[d]
  /\ got' = [got EXCEPT ![d] = Append(@, hand[d])] /\ hand' = [hand EXCEPT ![d] = 0]
  /\ UNCHANGED <<made, chan, wl, pipe, buf, held, noise, holds, scratch>>
Hold(d) ==
  /\ holds < 2 /\ ~held[d] /\ held' = [held EXCEPT ![d] = TRUE] /\ holds' = holds + 1
  /\ UNCHANGED <<made, chan, wl, pipe, buf, hand, got, noise, scratch>>
Release(d) ==
  /\ held[d] /\ held' = [held EXCEPT ![d] = FALSE]
  /\ UNCHANGED <<made, chan, wl, pipe, buf, hand, got, noise, holds, scratch>>
Lose(d) ==
  /\ Bug = "lossy" /\ hand[d] # 0 /\ held[d] /\ hand' = [hand EXCEPT ![d] = 0]
  /\ UNCHANGED <<made, chan, wl, pipe, buf, got, held, noise, holds, scratch>>

Must(d) == Produce(d) \/ Accept(d) \/ Put(d) \/ Fetch(d) \/ Scan(d) \/ Consume(d) \/ Release(d)
Next == \E d \in Dirs : Must(d) \/ MakeNoise(d) \/ Hold(d) \/ Lose(d)
Fair == \A d \in Dirs : /\ WF_vars(Produce(d)) /\ WF_vars(Accept(d)) /\ WF_vars(Put(d)) /\ WF_vars(Fetch(d))
                        /\ WF_vars(Scan(d)) /\ SF_vars(Consume(d)) /\ WF_vars(Release(d))
Spec == Init /\ [][Next]_vars /\ Fair

\* what was received is the beginning of what was sent
InOrder == \A d \in Dirs : /\ Len(got[d]) <= made[d]
                           /\ \A k \in 1..Len(got[d]) : got[d][k] = M(d, k)
\* nothing is lost on the way
Whole(s) == Cardinality({ i \in 1..Len(s) : s[i][1] = "t" })
Kept == \A d \in Dirs :
          made[d] = Len(got[d]) + (IF hand[d] # 0 THEN 1 ELSE 0) + Whole(buf[d]) + Whole(pipe[d]) + Whole(wl[d])
                    + (IF chan[d] # 0 THEN 1 ELSE 0)
\* and everything arrives
Arrives == <>(\A d \in Dirs : Len(got[d]) = N)
=============================================================================
