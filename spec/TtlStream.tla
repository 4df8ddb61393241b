------------------------------ MODULE TtlStream ------------------------------
(* E03. A decrypting stream with a time limit. The stream's age is judged   *)
(* when its first data is asked for; until that has succeeded, nothing      *)
(* comes out. Every packet but the last one supplied can be read.           *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS MaxAge, Packets, Ttls
None == -9
VARIABLES ttl, age, fed, out, begun, closed, act
view == <<ttl, age, fed, out, begun, closed>>
Act(op, res, n) == [op |-> op, res |-> res, n |-> n]
Init == /\ ttl \in Ttls \cup {None} /\ age = 0 /\ fed = 0 /\ out = 0
        /\ begun = 0 /\ closed = 0 /\ act = Act("init", "", 0)
Late == ttl # None /\ age > ttl
Tick == /\ age < MaxAge /\ age' = age + 1 /\ act' = Act("tick", "", 0)
        /\ UNCHANGED <<ttl, fed, out, begun, closed>>
Feed == /\ fed < Packets /\ closed = 0 /\ fed' = fed + 1 /\ act' = Act("feed", "", 0)
        /\ UNCHANGED <<ttl, age, out, begun, closed>>
Read ==
    /\ UNCHANGED <<ttl, age, fed, closed>>
    /\ IF fed = 0 THEN act' = Act("read", "nothing", 0) /\ UNCHANGED <<out, begun>>
       ELSE IF begun = 0 /\ Late
       THEN act' = Act("read", "expired", age - ttl) /\ UNCHANGED <<out, begun>>
       ELSE /\ begun' = 1 /\ out' = (IF closed = 1 THEN out ELSE fed - 1)
            /\ act' = Act("read", "data", out')
Finish ==
    /\ closed = 0 /\ fed = Packets /\ closed' = 1 /\ UNCHANGED <<ttl, age, fed>>
    /\ IF begun = 0 /\ Late
       THEN act' = Act("finish", "expired", age - ttl) /\ UNCHANGED <<out, begun>>
       ELSE begun' = 1 /\ out' = Packets /\ act' = Act("finish", "data", Packets)
Next == Tick \/ Feed \/ Read \/ Finish
Spec == Init /\ [][Next]_<<view, act>>
\* plaintext comes out only of a stream that was in time when first asked
InTime == [][out' > out => begun = 1 \/ ~Late]_<<view, act>>
Begins == [][begun' # begun => ~Late]_<<view, act>>
Text == ToJson([ttl |-> ttl, age |-> age, fed |-> fed, out |-> out, begun |-> begun, closed |-> closed])
Emit == PrintT("EDGE " \o ToJson(<<Text, act', ToJson([ttl |-> ttl', age |-> age',
            fed |-> fed', out |-> out', begun |-> begun', closed |-> closed'])>>))
EmitInit == act.op = "init" => PrintT("INIT " \o Text)
=============================================================================
