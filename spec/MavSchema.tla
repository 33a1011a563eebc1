----------------------------- MODULE MavSchema ------------------------------
(***************************************************************************)
(* The tables MavDerive derived from the message definitions: per dialect   *)
(* and message ID the CRC seed, the lengths and the position of each field. *)
(* (Read back from JSON because TLC then holds them as plain values.)       *)
(***************************************************************************)
EXTENDS MavBytes, Json, TLC, IOUtils

Defs == JsonDeserialize(IOEnv.TABLES)

Knows(d, id) == ToString(id) \in DOMAIN Defs[d]
Def(d, id) == Defs[d][ToString(id)]
KnownIDs(d) == { Defs[d][k].id : k \in DOMAIN Defs[d] }
=============================================================================
