----------------------------- MODULE PermTrace ------------------------------
(* I01. What was seen of a permutation: pairs of an input and its output,    *)
(* whichever of the two was computed from the other, between calls that step *)
(* it or change its increment. Equal values carry equal numbers. `bare`      *)
(* pairs come from the uncapped calls, which stepping does not concern.      *)
EXTENDS Integers, FiniteSets, Sequences, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, now, bare, seen, k, verdict
vars == <<tid, l, now, bare, seen, k, verdict>>
T == Traces[tid]
Init == /\ tid \in DOMAIN Traces /\ l = 1 /\ now = {} /\ bare = {} /\ seen = {}
        /\ k = 0 /\ verdict = ""
E == T.events[l]
OneToOne(S) == /\ Cardinality({p[1] : p \in S}) = Cardinality(S)
               /\ Cardinality({p[2] : p \in S}) = Cardinality(S)
Pairs == {<<E.pairs[i][1], E.pairs[i][2]>> : i \in DOMAIN E.pairs}
Judge(S) == IF E.outside > 0 THEN "a value outside the domain came out"
            ELSE IF ~OneToOne(S) THEN "not one-to-one, or not its own inverse"
            ELSE IF E.op = "pairs" /\ k < T.period /\ S \cap seen # {}
            THEN "an output repeated before the whole domain was stepped through"
            ELSE ""
Step ==
    /\ verdict = "" /\ l <= Len(T.events) /\ l' = l + 1 /\ UNCHANGED tid
    /\ CASE E.op = "pairs" -> LET S == now \cup Pairs IN
                              /\ now' = S /\ verdict' = Judge(S) /\ UNCHANGED <<bare, seen, k>>
         [] E.op = "bare" -> LET S == bare \cup Pairs IN
                             /\ bare' = S /\ verdict' = Judge(S) /\ UNCHANGED <<now, seen, k>>
         [] E.op = "step" -> /\ now' = {} /\ seen' = seen \cup now /\ k' = k + 1
                             /\ UNCHANGED <<bare, verdict>>
         \* changing the increment leaves the permutation as it is
         [] E.op = "increment" -> /\ seen' = {} /\ k' = 0 /\ UNCHANGED <<now, bare, verdict>>
         [] OTHER -> verdict' = "unknown event" /\ UNCHANGED <<now, bare, seen, k>>
Spec == Init /\ [][Step]_vars
Accepted == verdict = ""
=============================================================================
