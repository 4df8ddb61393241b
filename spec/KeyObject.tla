----------------------------- MODULE KeyObject ------------------------------
(* K06. The life of one curve key object: `has` is what it holds, `n` counts *)
(* calls. Which key it holds is the replay's business: the first it took.    *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Calls, Curve
VARIABLES has, n, act
view == <<has, n>>
Act(op, x, res) == [op |-> op, x |-> x, res |-> res]
Init == has = "none" /\ n = 0 /\ act = Act("init", "", "")
SecretOk == {"bytes", "object"}
SecretBad == {"short", "long", "empty", "text", "mutable", "public object", "other curve",
              "key holder", "nothing", "number"}
PublicOk == {"bytes", "object"}
PublicBad == {"short", "long", "empty", "text", "mutable", "secret object", "other curve",
              "key holder", "nothing", "number"}
Take(op, x, ok, h) ==
    IF has = "none" /\ ok THEN has' = h /\ act' = Act(op, x, "ok")
    ELSE act' = Act(op, x, "refused") /\ UNCHANGED has
Generate == Take("generate", "", TRUE, "secret")
ImportSecret(x) == Take("secret", x, x \in SecretOk, "secret")
ImportPublic(x) == Take("public", x, x \in PublicOk, "public")
Uses == IF Curve = "ed" THEN {"sign"} ELSE {"exchange bytes", "exchange object", "dh3", "dh2"}
Use(x) == UNCHANGED has /\ act' = Act("use", x, IF has = "secret" THEN "ok" ELSE "refused")
Read(x) == UNCHANGED has /\ act' = Act("read", x,
    IF has = "secret" \/ (has = "public" /\ x = "public_bytes") THEN "ok" ELSE "refused")
\* verifying with the object's own key or a given one
Verify(x) == UNCHANGED has /\ Curve = "ed"
    /\ act' = Act("verify", x, IF has = "none" /\ x = "own" THEN "refused" ELSE "ok")
Meddle(x) == UNCHANGED has /\ act' = Act("meddle", x, "refused")
Next == /\ n < Calls /\ n' = n + 1
        /\ \/ Generate
           \/ \E x \in SecretOk \cup SecretBad : ImportSecret(x)
           \/ \E x \in PublicOk \cup PublicBad : ImportPublic(x)
           \/ \E x \in Uses : Use(x)
           \/ \E x \in {"secret_bytes", "public_bytes"} : Read(x)
           \/ \E x \in {"own", "given"} : Verify(x)
           \/ \E x \in {"set secret", "set public", "delete secret", "delete public", "init"} : Meddle(x)
Spec == Init /\ [][Next]_<<view, act>>
ForLife == [][has # "none" => has' = has]_<<view, act>>
Rec(a, b) == ToJson([has |-> a, n |-> b])
Text == Rec(has, n)
Emit == PrintT("EDGE " \o ToJson(<<Text, act', Rec(has', n')>>))
EmitInit == act.op = "init" => PrintT("INIT " \o Text)
=============================================================================
