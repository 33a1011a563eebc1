------------------------------ MODULE StreamGen ------------------------------
(***************************************************************************)
(* Scenarios for the life-cycle driver, taken from Stream in batch mode,    *)
(* where the environment acts only when the system is at rest, with one     *)
(* operation or two concurrent ones.                                        *)
(*                                                                          *)
(* Exhaustive (StreamGen*.cfg, with a view): sequences of single operations *)
(* lead to every state of rest, and from each of them every operation and   *)
(* every pair of concurrent operations is a scenario.                       *)
(* Random (StreamWalk.cfg, TLC's simulation mode): long walks.              *)
(***************************************************************************)
EXTENDS Stream, Json

GenView == <<lib, env, now, rested>>

Order == <<"startR", "startW", "cancelR", "cancelW", "close", "close2", "closeIn", "feed", "feed2", "part",
           "eof", "rerr", "feedEof", "recv", "recv2", "send", "wrOk", "wrErr", "logR", "logW">>
Pos(o) == CHOOSE i \in 1..Len(Order) : Order[i] = o

\* left out: what nobody would notice
Sensible(o) ==
    /\ o \in {"feed", "feed2", "part", "eof", "rerr", "feedEof"} => rp \notin {"no", "done"}
    /\ o = "cancelR" => rp # "done" /\ ~sigC
    /\ o \in {"cancelW", "closeIn"} => wp # "done" /\ ~sigC
    /\ o = "send" => wp \notin {"no", "done"}
    /\ o = "close2" => "close" \in now
    /\ o = "recv2" => cons["C1"] = "wait" 
    /\ o = "close" => up["U1"] = "idle"
    /\ \A p \in now : Pos(p) < Pos(o)

Scenario == PrintT("SCN " \o ToJson([logger |-> cfg.logger, gated |-> cfg.gated, cap |-> cfg.cap, ops |-> ops']))

GenNext == (Operate /\ Sensible(Last(Last(ops')))) \/ Run \/ Rest
GenSpec == Init /\ [][GenNext]_vars

Emitted == ops' # ops => Scenario
Short == Cardinality(now) < 2

\* walks: starting, and closing only towards the end
WalkNext ==
  \/ /\ Operate
     /\ LET o == Last(Last(ops'))
        IN  /\ Sensible(o)
            /\ Len(ops) = 0 => o \in {"startR", "startW"}
            /\ o \in {"cancelR", "cancelW", "close", "closeIn", "eof", "rerr", "feedEof", "wrErr"} => left <= 4
  \/ Run
  \/ Rest
WalkSpec == Init /\ [][WalkNext]_vars
WalkEnd == left' = 0 /\ left = 1 => Scenario
=============================================================================
