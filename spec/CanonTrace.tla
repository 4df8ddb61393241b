----------------------------- MODULE CanonTrace -----------------------------
(* N01. Longer packings made by the code: they must be the documented ones.  *)
EXTENDS Canon, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, verdict
vars == <<tid, verdict>>
Init == tid \in DOMAIN Traces /\ verdict = ""
T == Traces[tid]
Judge == IF T.out # Pack(T.items, T.b, T.p, T.s) THEN "not the documented encoding"
         ELSE IF Unpack(T.out).items # T.items THEN "does not read back" ELSE "ok"
Step == verdict = "" /\ verdict' = Judge /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars
Accepted == verdict \in {"", "ok"}
=============================================================================
