--------------------------- MODULE SaltCallsTrace ---------------------------
(* Judges recorded calls, and images left by a program that ended inside    *)
(* one, against SaltCalls.                                                  *)
EXTENDS SaltCalls
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, verdict
TInit == /\ tid \in 1..Len(Traces) /\ case = <<>>
         /\ verdict = IF Traces[tid].kind = "image" THEN BadImage(Traces[tid]) ELSE Bad(Traces[tid])
TSpec == TInit /\ [][UNCHANGED <<tid, verdict, case>>]_<<tid, verdict, case>>
Accepted == verdict = "ok"
=============================================================================
