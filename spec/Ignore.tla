------------------------------- MODULE Ignore -------------------------------
(* N07. A context that ignores exceptions of some types: which handlers run, *)
(* in which order, and what the code around the context sees.                *)
EXTENDS Integers, Sequences, Json, TLC
VARIABLES types, body, exc, els, fin
vars == <<types, body, exc, els, fin>>
\* types: what is ignored; body: how the body ends; "sub" is a kind of "value"
Init == /\ types \in {"nothing", "value", "value os", "all", "base"}
        /\ body \in {"fine", "value", "sub", "os", "key", "exit", "cancel"}
        /\ exc \in {"none", "true", "one", "false", "empty", "raise"}
        /\ els \in {"none", "ok", "raise"} /\ fin \in {"none", "ok", "raise"}
Spec == Init /\ [][UNCHANGED vars]_vars
Matches == CASE types = "nothing" -> FALSE
             [] types = "value" -> body \in {"value", "sub"}
             [] types = "value os" -> body \in {"value", "sub", "os"}
             [] types = "all" -> body \in {"value", "sub", "os", "key"}
             [] types = "base" -> body # "fine"
If(b, x) == IF b THEN <<x>> ELSE <<>>
Calls == If(body = "fine" /\ els # "none", "else") \o If(Matches /\ exc # "none", "except")
         \o If(fin # "none", "finally")
Seen == IF fin = "raise" THEN "finally"
        ELSE IF body = "fine" THEN (IF els = "raise" THEN "else" ELSE "nothing")
        ELSE IF ~Matches THEN "body"
        ELSE CASE exc \in {"none", "true", "one"} -> "nothing" [] exc \in {"false", "empty"} -> "body"
               [] exc = "raise" -> "except"
EmitCase == PrintT("CASE " \o ToJson([types |-> types, body |-> body, exc |-> exc, els |-> els, fin |-> fin,
                                      calls |-> Calls, seen |-> Seen]))
=============================================================================
