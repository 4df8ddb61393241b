------------------------------- MODULE KeyUse -------------------------------
(* K06. What a signature is checked against, or with whom a key is          *)
(* exchanged, differing from what was signed or agreed in any part.          *)
EXTENDS Integers, Sequences, Json, TLC
VARIABLES sig, msg, key
vars == <<sig, msg, key>>
Ways == {"same", "flip", "cut", "longer", "other", "empty", "type"}
Init == sig \in Ways /\ msg \in Ways /\ key \in Ways
Spec == Init /\ [][UNCHANGED vars]_vars
Valid == sig = "same" /\ msg = "same" /\ key = "same"
EmitCase == PrintT("CASE " \o ToJson([sig |-> sig, msg |-> msg, key |-> key,
    ok |-> IF Valid THEN 1 ELSE 0]))
=============================================================================
