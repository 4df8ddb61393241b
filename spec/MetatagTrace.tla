---------------------------- MODULE MetatagTrace ----------------------------
(* Judges recorded runs of tasks that open metatags and use them.            *)
(* Events: <<"got", name, object>>, <<"set", name, tag, value>>,            *)
(*         <<"read", name, tag, value>> (value 0: absent), <<"list", names>> *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, obj, val, verdict
vars == <<tid, i, obj, val, verdict>>
Keys == {"m", "n"} \X {"x", "y"}
Init == /\ tid \in 1..Len(Traces)
        /\ i = 1
        /\ obj = [n \in {"m", "n"} |-> 0]
        /\ val = [k \in Keys |-> 0]
        /\ verdict = "ok"
Judge(e) ==
    CASE e[1] = "got" ->
            IF obj[e[2]] = 0
            THEN IF \E n \in DOMAIN obj : obj[n] = e[3]
                 THEN "two names lead to one database" ELSE "ok"
            ELSE IF obj[e[2]] = e[3] THEN "ok" ELSE "a name leads to two databases"
      [] e[1] = "set" -> "ok"
      [] e[1] = "read" -> IF val[<<e[2], e[3]>>] = e[4] THEN "ok" ELSE "a value was lost"
      [] e[1] = "list" -> IF {e[2][k] : k \in 1..Len(e[2])} = {n \in DOMAIN obj : obj[n] # 0}
                             /\ Len(e[2]) = Cardinality({n \in DOMAIN obj : obj[n] # 0})
                          THEN "ok" ELSE "wrong listing of metatags"
      [] OTHER -> "an error: " \o e[1]
Next == /\ verdict = "ok"
        /\ i <= Len(Traces[tid].events)
        /\ LET e == Traces[tid].events[i] IN
           /\ verdict' = Judge(e)
           /\ obj' = IF e[1] = "got" THEN [obj EXCEPT ![e[2]] = e[3]] ELSE obj
           /\ val' = IF e[1] = "set" THEN [val EXCEPT ![<<e[2], e[3]>>] = e[4]] ELSE val
        /\ i' = i + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Accepted == verdict = "ok"
=============================================================================
