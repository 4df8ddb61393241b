-------------------------------- MODULE Clock -------------------------------
(* N03. A clock counts whole units of U nanoseconds since its epoch. A stamp *)
(* made at t1 is measured at t2, both in nanoseconds since the epoch, and    *)
(* tested against a limit of ttl units.                                      *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS U, Units, Past
VARIABLES t1, t2, ttl
vars == <<t1, t2, ttl>>
Times == 0..(U * Units - 1)
Reading(t) == t \div U
Delta == Reading(t2) - Reading(t1)
Expired == Delta > ttl
\* Past: units the present may lie before the epoch
Init == t1 \in Times /\ t2 \in (0 - U * Past)..(U * Units - 1) /\ ttl \in -1..Units
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* the measured age is within one unit of the true one
Close == LET true == t2 - t1 IN Delta * U - true < U /\ true - Delta * U < U
\* what is older than the limit by a whole unit is expired; what is younger than it is not
Sound == /\ t2 - t1 >= (ttl + 1) * U + U => Expired
         /\ t2 - t1 <= (ttl - 1) * U => ~Expired
Case == [t1 |-> t1, t2 |-> t2, ttl |-> ttl, read |-> Reading(t1), now |-> Reading(t2), delta |-> Delta,
         expired |-> IF Expired THEN 1 ELSE 0, by |-> IF Expired THEN Delta - ttl ELSE 0]
EmitCase == PrintT("CASE " \o ToJson(Case))
=============================================================================
