------------------------------ MODULE PassHash ------------------------------
(* K02. Hashing a passphrase one way and verifying it another, with what is *)
(* verified differing from what was hashed in any combination of two parts. *)
(* `age` is the age of the hash relative to the limit.                       *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
VARIABLES hashed, verified, diffs, age
vars == <<hashed, verified, diffs, age>>
Secrets == {"pass flip", "pass longer", "pass cut", "pass end", "aad flip", "aad longer", "aad cut",
            "aad none", "pass to aad", "pepper", "pepper none"}
Parts == {"time", "mb", "cpu", "cores", "salt size", "salt", "tag", "tag cut", "tag longer", "front"}
One(d) == Cardinality(d \cap Secrets) <= 1 /\ Cardinality(d \cap Parts) <= 1
Init == /\ hashed \in {"sync", "async"} /\ verified \in {"sync", "async"}
        /\ diffs \in {d \in {{a, b} : a, b \in Secrets \cup Parts \cup {"none"}} : One(d)}
        /\ age \in {"no limit", "new", "younger", "equal", "older", "much older", "future"}
Spec == Init /\ [][UNCHANGED vars]_vars
Expired == age \in {"older", "much older"}
Same == diffs = {"none"}
\* a changed header may be refused for what it asks, or for its age
Header == diffs \cap (Parts \ {"salt", "tag"}) # {}
Errors == IF Same THEN IF Expired THEN {"expired"} ELSE {}
          ELSE (IF Expired THEN {"expired"} ELSE {"wrong"})
               \cup IF Header THEN {"wrong", "expired", "asks too much", "malformed"} ELSE {}
EmitCase == PrintT("CASE " \o ToJson([hashed |-> hashed, verified |-> verified, diffs |-> diffs,
    age |-> age, errors |-> Errors]))
Exact == (Errors = {}) <=> (Same /\ ~Expired)
=============================================================================
