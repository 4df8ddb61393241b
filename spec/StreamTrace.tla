---------------------------- MODULE StreamTrace -----------------------------
(* S01, S03. Concurrent buffering calls on one stream, perhaps with calls   *)
(* 0 and -1 that finalize it. Events: call, ret (data taken), closed        *)
(* (refused), tag (it was given when so many packets had come out). `runs`  *)
(* is the plaintext that came out, as the sequence of the calls its runs of *)
(* bytes belong to. With `strict` calls take effect in the order in which   *)
(* they were made, and a call on a stream being finalized is refused before *)
(* anything else happens; else a call follows those which had returned      *)
(* before it.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES tid, l, called, returned, refused, before, due, verdict
vars == <<tid, l, called, returned, refused, before, due, verdict>>
Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tid]
Fins == {0, -1}                            \* the calls that finalize
None == -9
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ called = {} /\ returned = {}
        /\ refused = {} /\ before = {} /\ due = None /\ verdict = ""
E == T.events[l]
Position(i) == CHOOSE k \in 1..Len(T.runs) : T.runs[k] = i
Judge ==
    LET taken == {i \in returned : i \notin Fins /\ T.sizes[i] > 0}
        seen == {T.runs[k] : k \in 1..Len(T.runs)}
    IN IF called # returned \cup refused THEN "a call did not come back"
       ELSE IF called \cap Fins # {} /\ returned \cap Fins = {} THEN "finalizing was refused"
       ELSE IF Fins \subseteq returned THEN "a stream was finalized twice"
       ELSE IF T.strict = 1 /\ \E p \in before : p[1] \in Fins /\ p[1] \in refused /\ p[2] \in Fins
       THEN "the later of two finalizing calls went through"
       ELSE IF seen \ taken # {} THEN "refused data came out"
       ELSE IF taken \ seen # {} THEN "data was lost"
       ELSE IF Len(T.runs) # Cardinality(seen) THEN "a call's data was torn apart"
       ELSE IF \E p \in before : p[1] \in seen /\ p[2] \in seen /\ Position(p[1]) > Position(p[2])
       THEN "calls took effect out of order"
       ELSE IF \E p \in before : p[1] \in Fins /\ p[2] \in returned \ Fins THEN "a finalized stream took data"
       ELSE IF refused # {} /\ Fins \cap called = {} THEN "an open stream refused data"
       ELSE "ok"
Step ==
    /\ verdict = "" /\ UNCHANGED tid
    /\ IF l > Len(T.events)
       THEN verdict' = Judge /\ UNCHANGED <<l, called, returned, refused, before, due>>
       ELSE /\ l' = l + 1
            /\ verdict' = IF due # None /\ E # <<"closed", due>> THEN "a call on a closed stream had to wait"
                          ELSE IF E[1] = "tag" /\ E[2] # T.total THEN "a tag before finalizing was completed"
                          ELSE ""
            /\ due' = IF T.strict = 1 /\ E[1] = "call" /\ called \cap Fins # {} THEN E[2] ELSE None
            /\ IF E[1] = "tag" THEN UNCHANGED <<called, returned, refused, before>>
               ELSE IF E[1] = "call"
               THEN /\ called' = called \cup {E[2]}
                    /\ before' = before \cup
                         {<<i, E[2]>> : i \in IF T.strict = 1 THEN called ELSE returned}
                    /\ UNCHANGED <<returned, refused>>
               ELSE IF E[1] = "ret"
               THEN returned' = returned \cup {E[2]} /\ UNCHANGED <<called, refused, before>>
               ELSE refused' = refused \cup {E[2]} /\ UNCHANGED <<called, returned, before>>
Spec == Init /\ [][Step]_vars
Accepted == verdict \in {"", "ok"}
=============================================================================
