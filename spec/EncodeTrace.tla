----------------------------- MODULE EncodeTrace ----------------------------
(* N02. Longer strings and numbers as the code encoded them. `from` and `to` *)
(* are digits to the bases `b1` and `b2`; they must stand for one number,    *)
(* which is judged by residues, without leading zero digits in `to`.         *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, verdict
vars == <<tid, verdict>>
Primes == {32749, 32719, 32717, 32713, 32707, 32693, 251, 241}
RECURSIVE Mod(_, _, _, _, _)
Mod(d, base, p, i, acc) == IF i > Len(d) THEN acc ELSE Mod(d, base, p, i + 1, (acc * base + d[i]) % p)
Init == tid \in DOMAIN Traces /\ verdict = ""
T == Traces[tid]
Judge == IF \E i \in DOMAIN T.to : T.to[i] < 0 \/ T.to[i] >= T.b2 THEN "a symbol outside the table"
         ELSE IF Len(T.to) = 0 \/ (Len(T.to) > 1 /\ T.to[1] = 0) THEN "not the shortest form"
         ELSE IF \E p \in Primes : Mod(T.from, T.b1, p, 1, 0) # Mod(T.to, T.b2, p, 1, 0)
         THEN "not the same number" ELSE "ok"
Step == verdict = "" /\ verdict' = Judge /\ UNCHANGED tid
Spec == Init /\ [][Step]_vars
Accepted == verdict \in {"", "ok"}
=============================================================================
