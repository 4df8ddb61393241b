----------------------------- MODULE GuidTrace ------------------------------
(* I02. Identifiers made by generators that share a key and have different   *)
(* node numbers. For each: the generator, the identifier's number (equal     *)
(* byte strings have equal numbers), the fields read from it, and the clock  *)
(* when the call began and ended. `order` is the identifiers as sorting put  *)
(* them. Times and tokens carry numbers in the same order as their values.   *)
EXTENDS Integers, FiniteSets, Sequences, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, ids, verdict
vars == <<tid, l, ids, verdict>>
T == Traces[tid]
Init == /\ tid \in DOMAIN Traces /\ l = 1 /\ ids = {} /\ verdict = ""
E == T.made[l]
Less(a, b) == \/ a.time < b.time
              \/ a.time = b.time /\ a.node < b.node
              \/ a.time = b.time /\ a.node = b.node /\ a.tick < b.tick
              \/ a.time = b.time /\ a.node = b.node /\ a.tick = b.tick /\ a.token <= b.token
\* no more than `limit` within one tick of the clock
Within == \A t \in {T.made[i].time : i \in DOMAIN T.made} :
            \A g \in {T.made[i].g : i \in DOMAIN T.made} :
              Cardinality({i \in DOMAIN T.made : T.made[i].time = t /\ T.made[i].g = g}) <= T.limit
Judge ==
    IF Cardinality(ids) # Len(T.made) /\ Within THEN "two identifiers are equal"
    ELSE IF \E i \in 1..Len(T.order) - 1 : ~Less(T.made[T.order[i]], T.made[T.order[i + 1]])
    THEN "sorting does not follow the documented order"
    ELSE IF {T.order[i] : i \in DOMAIN T.order} # DOMAIN T.made THEN "sorting lost identifiers"
    ELSE "ok"
Step ==
    /\ verdict = "" /\ UNCHANGED <<tid>>
    /\ IF l > Len(T.made) THEN verdict' = Judge /\ UNCHANGED <<l, ids>>
       ELSE /\ l' = l + 1 /\ ids' = ids \cup {E.id}
            /\ verdict' = IF E.time < E.began \/ E.time > E.ended THEN "the time is not that of the call"
                          ELSE IF E.node # T.nodes[E.g] THEN "the node number is another"
                          ELSE ""
Spec == Init /\ [][Step]_vars
Accepted == verdict \in {"", "ok"}
=============================================================================
