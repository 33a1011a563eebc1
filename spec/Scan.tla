-------------------------------- MODULE Scan --------------------------------
(***************************************************************************)
(* Finding frames in a byte stream: the declarative reference.              *)
(*                                                                          *)
(* Scanning position p of the input s, of which n bytes have arrived.  The  *)
(* format is a parameter: what a start byte is, how many bytes tell the     *)
(* length a candidate declares (Look), and which candidates are valid in a  *)
(* context c.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSetsExt

CONSTANTS StartByte(_), Declared(_), Valid(_, _), Look

Peek(s, p) == SubSeq(s, p + 1, p + Look)
Whole(s, p, n) == n - p >= Look /\ Declared(Peek(s, p)) <= n - p
Candidate(s, p) == SubSeq(s, p + 1, p + Declared(Peek(s, p)))

\* what there is to do at position p
Todo(c, s, p, n) ==
    CASE p >= n -> "wait"
      [] p < n /\ ~StartByte(s[p + 1]) -> "skip"
      [] p < n /\ StartByte(s[p + 1]) /\ ~Whole(s, p, n) -> "wait"
      [] OTHER -> IF Valid(c, Candidate(s, p)) THEN "deliver" ELSE "reject"

\* the next start byte from position p on
NextStart(s, p, n) ==
    LET c == { q \in p..(n - 1) : StartByte(s[q + 1]) }
    IN  IF c = {} THEN n ELSE Min(c)

\* all frames a stream delivers from a prefix (lenient: with invalid candidates)
RECURSIVE Frames(_, _, _, _, _)
Frames(c, s, p, n, lenient) ==
    LET t == Todo(c, s, p, n)
    IN  CASE t = "wait"    -> <<>>
          [] t = "skip"    -> Frames(c, s, p + 1, n, lenient)
          [] t = "reject"  -> (IF lenient THEN <<Candidate(s, p)>> ELSE <<>>)
                              \o Frames(c, s, p + 1, n, lenient)
          [] t = "deliver" -> <<Candidate(s, p)>>
                              \o Frames(c, s, p + Len(Candidate(s, p)), n, lenient)
=============================================================================
