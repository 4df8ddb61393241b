---------------------------- MODULE EntropyTrace ----------------------------
(* R01. What requests for random bytes gave, in threads, tasks and processes *)
(* that began with the same memory. Equal words of eight bytes carry equal   *)
(* numbers. An event: the size asked for, the length got (-1: the call       *)
(* failed) and the words of the value.                                       *)
EXTENDS Integers, FiniteSets, Sequences, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, words, verdict
vars == <<tid, i, words, verdict>>
Init == tid \in DOMAIN Traces /\ i = 1 /\ words = {} /\ verdict = "ok"
E == Traces[tid].events[i]
Mine == {E.words[w] : w \in DOMAIN E.words}
Judge == IF E.got = -1 THEN "a request failed"
         ELSE IF E.got # E.size THEN "a value has another size than asked for"
         ELSE IF Cardinality(Mine) # Len(E.words) THEN "a value repeats a part of itself"
         ELSE IF Mine \cap words # {} THEN "two values have a part in common"
         ELSE "ok"
Step == /\ verdict = "ok" /\ i <= Len(Traces[tid].events)
        /\ verdict' = Judge /\ i' = i + 1 /\ words' = words \cup Mine /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars
Accepted == verdict = "ok"
=============================================================================
