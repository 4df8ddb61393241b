---------------------------- MODULE DbFaultTrace ----------------------------
(* Judges recorded outcomes (content, open, read) against DbFaults.         *)
EXTENDS DbFaults
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, verdict
Bad(c) ==
    LET opens == {d \in {"A", "B"} : c.open[d] \notin OpenAllowed(d, c.content, c.preload)}
        reads == {s \in TagSlots :
                    c.open[Top[Root[s]]] = "ok" /\ c.read[s] \notin ReadAllowed(s, c.content)}
        lists == {d \in {"A", "B"} : c.open[d] = "ok" /\ Own(c.content[d]) /\ ~c.listed[d]}
    IN IF opens # {} THEN "opening " \o (CHOOSE d \in opens : TRUE)
       ELSE IF reads # {} THEN LET s == CHOOSE s \in reads : TRUE IN
            "reading " \o s \o " gave " \o c.read[s]
       ELSE IF lists # {} THEN "the listing of tags"
       ELSE "ok"
TInit == /\ tid \in 1..Len(Traces)
         /\ case = 0
         /\ verdict = Bad(Traces[tid])
TSpec == TInit /\ [][UNCHANGED <<tid, verdict, case>>]_<<tid, verdict, case>>
Accepted == verdict = "ok"
=============================================================================
