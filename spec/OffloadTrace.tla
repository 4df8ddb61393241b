---------------------------- MODULE OffloadTrace ----------------------------
(* N05. Recorded calls: `out` how each function was to end, `runs` how often *)
(* each ran, `ret` and `vals` what the caller was given; values are numbers, *)
(* the i-th function's being i, and 0 stands for anything else.              *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, verdict
vars == <<tid, verdict>>
Init == tid \in DOMAIN Traces /\ verdict = ""
T == Traces[tid]
Fails == \E i \in DOMAIN T.out : T.out[i] # "ok"
Judge ==
    IF T.ret = "lost" THEN "the caller was not given anything"
    ELSE IF \E i \in DOMAIN T.runs : T.runs[i] > 1 THEN "a function ran more than once"
    ELSE IF Fails THEN (IF T.ret = "failed" THEN "ok" ELSE "a failure was not reported")
    ELSE IF T.ret # "ok" THEN "a failure was reported where there was none"
    ELSE IF \E i \in DOMAIN T.runs : T.runs[i] # 1 THEN "a function did not run"
    ELSE IF T.vals # [i \in 1..Len(T.out) |-> i] THEN "not the functions' results in their order"
    ELSE "ok"
Step == verdict = "" /\ verdict' = Judge /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars
Accepted == verdict \in {"", "ok"}
=============================================================================
