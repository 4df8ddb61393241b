---------------------------- MODULE CipherParts -----------------------------
(* E02. Two messages were encrypted. An adversary hands the decrypting      *)
(* party a ciphertext made of parts of them or of altered parts (0), and    *)
(* the party uses key and aad of either message, or others (0). Share tells *)
(* which values both messages have in common. What is accepted must be one  *)
(* of the two messages, complete, in its own context.                       *)
EXTENDS Integers, FiniteSets, Sequences, Json, TLC
CONSTANTS MaxBody, MaxDev
Src == {0, 1, 2}
Blocks == {<<m, i>> : m \in {1, 2}, i \in {1, 2}} \cup {<<0, 0>>}
Bodies == UNION {[1..k -> Blocks] : k \in 0..MaxBody}
Whole(m) == <<<<m, 1>>, <<m, 2>>>>
Shares == SUBSET {"key", "aad", "salt"}
VARIABLES share, tag, salt, iv, body, key, aad
vars == <<share, tag, salt, iv, body, key, aad>>
\* how far it is from message 1, counting a body as up to two
Dev == Cardinality({x \in 1..5 : <<tag, salt, iv, key, aad>>[x] # 1})
     + (IF body = Whole(1) THEN 0
        ELSE IF Len(body) = 2 /\ (body[1] = <<1, 1>> \/ body[2] = <<1, 2>>) THEN 1 ELSE 2)
Init == /\ share \in Shares /\ tag \in Src /\ salt \in Src /\ iv \in Src
        /\ key \in Src /\ aad \in Src /\ body \in Bodies
        /\ Dev <= MaxDev \/ (tag = 2 /\ iv = 2 /\ body \in {Whole(2), Whole(1)})
Spec == Init /\ [][UNCHANGED vars]_vars
Is(x, m, name) == x = m \/ (name \in share /\ x \in {1, 2})
Same(m) == /\ tag = m /\ iv = m /\ body = Whole(m) /\ Is(salt, m, "salt")
           /\ Is(key, m, "key") /\ Is(aad, m, "aad")
Verdict == IF body = <<>> THEN "size"
           ELSE IF Same(1) THEN "1" ELSE IF Same(2) THEN "2" ELSE "refused"
\* nothing altered is ever accepted
Strict == Verdict \in {"1", "2"} =>
             0 \notin {tag, salt, iv, key, aad} /\ <<0, 0>> \notin {body[i] : i \in DOMAIN body}
B(name) == IF name \in share THEN 1 ELSE 0
EmitCase == PrintT("CASE " \o ToJson([share |-> <<B("key"), B("aad"), B("salt")>>, tag |-> tag,
               salt |-> salt, iv |-> iv, body |-> body, key |-> key, aad |-> aad,
               verdict |-> Verdict]))
=============================================================================
