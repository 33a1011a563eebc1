------------------------------- MODULE LinkGen -------------------------------
(***************************************************************************)
(* Scenarios for the link driver: what the environment does in random       *)
(* behaviours of Link.                                                      *)
(***************************************************************************)
EXTENDS Link, Json
VARIABLE ops
gvars == <<vars, ops>>
GInit == Init /\ ops = <<>>
Say(o, d) == ops' = Append(ops, <<o, d>>)
\* the environment is as likely to act as the loops are
GNext ==
  \E d \in Dirs :
    \/ Produce(d) /\ Say("m", d)
    \/ MakeNoise(d) /\ Say("n", d)
    \/ Hold(d) /\ Say("h", d)
    \/ Release(d) /\ Say("g", d)
    \/ (Accept(d) \/ Put(d) \/ Fetch(d) \/ Scan(d)) /\ UNCHANGED ops
    \/ Consume(d) /\ UNCHANGED ops
GSpec == GInit /\ [][GNext]_gvars
Done == \A d \in Dirs : Len(got[d]) = N
Emit == (\A d \in Dirs : Len(got'[d]) = N) /\ ~Done => PrintT("SCN " \o ToJson([ops |-> ops']))
=============================================================================
