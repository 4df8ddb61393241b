----------------------------- MODULE FreshTrace ------------------------------
(* E04. A recorded history of encryptions. Equal byte strings carry equal   *)
(* numbers. Each event: key, aad, given salt (0: none), and what is seen of *)
(* the ciphertext: salt, iv, blocks of the body. Frozen: one of the random  *)
(* values drawn is made to repeat; the others must still set bodies apart.  *)
EXTENDS Integers, FiniteSets, Sequences, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, salts, ivs, blocks, verdict
vars == <<tid, i, salts, ivs, blocks, verdict>>
Init == /\ tid \in DOMAIN Traces /\ i = 1 /\ salts = {} /\ ivs = {}
        /\ blocks = {} /\ verdict = "ok"
E == Traces[tid][i]
Judge ==
    IF E.given # 0 /\ E.salt # E.given THEN "a given salt was not used"
    ELSE IF E.frozen = 0 /\ E.given = 0 /\ E.salt \in salts THEN "a salt was used twice"
    ELSE IF E.frozen = 0 /\ E.iv \in ivs THEN "an iv was used twice"
    ELSE IF Cardinality({E.blocks[b] : b \in DOMAIN E.blocks}) # Len(E.blocks)
         THEN "blocks of one body are equal"
    ELSE IF \E b \in DOMAIN E.blocks : E.blocks[b] \in blocks
         THEN "two encryptions have a block in common"
    ELSE "ok"
Step == /\ verdict = "ok" /\ i <= Len(Traces[tid])
        /\ verdict' = Judge /\ i' = i + 1 /\ UNCHANGED tid
        /\ salts' = salts \cup {E.salt}
        /\ ivs' = ivs \cup {E.iv}
        /\ blocks' = blocks \cup {E.blocks[b] : b \in DOMAIN E.blocks}
Spec == Init /\ [][Step]_vars
Accepted == verdict = "ok"
=============================================================================
