----------------------------- MODULE PassDecode -----------------------------
(* K03. Reading an alleged password hash of some length, whose byte for the  *)
(* size of the salt is `slen`: where its parts begin, or that it is refused. *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Lengths, Slens
VARIABLES length, slen
vars == <<length, slen>>
Fixed == 14
Init == length \in Lengths /\ slen \in Slens
Spec == Init /\ [][UNCHANGED vars]_vars
Salt == slen + 1
Tag == length - Fixed - Salt
Ok == length >= Fixed /\ Salt >= 4 /\ Tag >= 16
EmitCase == PrintT("CASE " \o ToJson([length |-> length, slen |-> slen, ok |-> IF Ok THEN 1 ELSE 0,
    salt |-> Salt, tag |-> Tag]))
=============================================================================
