---------------------------- MODULE CipherPairs -----------------------------
(* E01. One party encrypts, the other decrypts; a ciphertext is a term that *)
(* names everything it was made from. However either party calls the        *)
(* cipher, equal key, salt, iv and aad give back the plaintext.             *)
EXTENDS Integers, Sequences, Json, TLC
Whole == {"sync", "async"}
Parts == {"stream", "astream"}
Kinds == {"bytes", "json", "token"}
Vias(kind) == IF kind = "bytes" THEN Whole \cup Parts ELSE Whole
VARIABLES kind, enc, dec, given, wire, got
vars == <<kind, enc, dec, given, wire, got>>
Nothing == [none |-> TRUE]
Init == /\ kind \in Kinds /\ enc \in Vias(kind) /\ dec \in Vias(kind)
        /\ given \in {0, 1}                         \* the salt is given
        /\ wire = Nothing /\ got = Nothing
Term(pt) == [key |-> "k", salt |-> IF given = 1 THEN "given" ELSE "drawn",
             iv |-> "drawn", aad |-> "a", pt |-> pt]
Encrypt == wire = Nothing /\ wire' = Term("plaintext") /\ UNCHANGED <<kind, enc, dec, given, got>>
Decrypt == /\ wire # Nothing /\ got = Nothing
           /\ got' = IF wire.key = "k" /\ wire.aad = "a" THEN [pt |-> wire.pt] ELSE [pt |-> "refused"]
           /\ UNCHANGED <<kind, enc, dec, given, wire>>
Spec == Init /\ [][Encrypt \/ Decrypt]_vars
Inverse == got # Nothing => got.pt = "plaintext"
EmitCase == (wire = Nothing) => PrintT("CASE " \o ToJson(
               [kind |-> kind, enc |-> enc, dec |-> dec, given |-> given]))
=============================================================================
