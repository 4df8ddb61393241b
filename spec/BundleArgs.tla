----------------------------- MODULE BundleArgs -----------------------------
(* M01. Which arguments a cipher and its streams take. "right" is a byte    *)
(* string of the scheme's size, "none" leaves the argument out.             *)
EXTENDS Integers, Sequences, Json, TLC
VARIABLES call, key, salt, aad, iv
vars == <<call, key, salt, aad, iv>>
Bytes == {"right", "empty", "short", "long"}
Other == {"text", "array", "number", "bytesclass"}
Init == /\ call \in {"bytes", "json", "stream", "destream", "bundle"}
        /\ key \in {"right", "longer"} \cup {"short", "empty"} \cup Other
        /\ salt \in Bytes \cup Other \cup {"none"}
        /\ aad \in {"right", "empty", "none"} \cup Other
        /\ iv \in Bytes \cup Other \cup {"none"}
        \* one deviation at a time, or the iv's with another
        /\ call \notin {"destream", "bundle"} => iv = "none"
        /\ ((key \in {"right", "longer"}) \/ (salt \in {"right", "none"} /\ aad \in {"right", "none"} /\ iv \in {"right", "none"}))
Spec == Init /\ [][UNCHANGED vars]_vars
GoodKey == key \in {"right", "longer"}
GoodSalt == salt \in {"right", "none"}
GoodAad == aad \in {"right", "empty", "none"}
GoodIv == iv \in {"right", "none"} /\ (call = "destream" => iv = "right")
Ok == GoodKey /\ GoodSalt /\ GoodAad /\ GoodIv /\ (call = "destream" => salt # "none")
EmitCase == PrintT("CASE " \o ToJson([call |-> call, key |-> key, salt |-> salt,
              aad |-> aad, iv |-> iv, ok |-> IF Ok THEN 1 ELSE 0]))
=============================================================================
