--------------------------- MODULE PackageVerify ----------------------------
(* K04. Verifying a summary after an adversary changed it. `part` is what    *)
(* changed; `redone` says how far they recomputed what depends on it: not,   *)
(* the checksum, or also the signature by a key of their own, without or     *)
(* with naming that key in the summary. `files` is the state of the files,   *)
(* `looks` whether the verifier looks at them, `expects` whose key it        *)
(* expects.                                                                  *)
EXTENDS Integers, Sequences, Json, TLC
VARIABLES part, redone, files, looks, expects, form
vars == <<part, redone, files, looks, expects, form>>
Parts == {"none", "checksum", "checksum of file", "name of file", "file added", "file dropped", "credential",
          "credential added", "credential dropped", "package", "version", "date", "scope added", "scope dropped", "extra",
          "signing key", "signature", "field added", "files emptied"}
Missing == {"no checksum", "no signature", "no signing key", "no files"}
Init == /\ part \in Parts \cup Missing
        /\ redone \in {"nothing", "checksum", "signature", "signature and key"}
        /\ files \in {"same", "flip", "cut", "longer", "missing", "empty", "swapped", "more"}
        /\ looks \in {0, 1} /\ expects \in {"signer", "adversary", "other"}
        /\ form \in {"dict", "text", "bytes"}
Spec == Init /\ [][UNCHANGED vars]_vars
Untouched == part = "none" /\ redone \in {"nothing", "checksum"}
FilesOk == looks = 0 \/ files \in {"same", "more"}
\* a complete summary of the adversary's own verifies with their key
Theirs == redone = "signature and key" /\ expects = "adversary" /\ part \notin Missing
Verdict == IF Untouched /\ expects = "signer" /\ FilesOk THEN "ok"
           ELSE IF Theirs THEN "open"
           ELSE "refused"
EmitCase == PrintT("CASE " \o ToJson([part |-> part, redone |-> redone, files |-> files, looks |-> looks,
    expects |-> expects, form |-> form, verdict |-> Verdict]))
=============================================================================
