------------------------------- MODULE DbLoad -------------------------------
(* D08. A database with a tag, a metatag with a tag, and a metatag of that   *)
(* with a tag, all saved. Some values are in the caches already, then some   *)
(* files are lost, then one call loads. `cached` afterwards are the values   *)
(* that bracket lookup gives; a call that is not silent fails if a file it   *)
(* needs is lost.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
VARIABLES had, lost, call, silent
Slots == {"t", "x", "y"}
Calls == {"tags", "metatags", "metatags only", "database", "database only", "inner database", "open", "open only", "profile"}
Covers == [c \in Calls |->
    CASE c = "tags" -> {"t"}
      [] c = "metatags" -> {"x", "y"}
      [] c \in {"database", "open", "profile"} -> Slots
      [] c = "inner database" -> {"x", "y"}
      [] OTHER -> {}]
New == call \in {"open", "open only", "profile"}
Before == IF New THEN {} ELSE had
\* silent unless told otherwise when opening, not silent when loading
Quiet == IF silent = "default" THEN New ELSE silent = "yes"
Fails == ~Quiet /\ (Covers[call] \cap lost) \ Before # {}
After == Before \cup (Covers[call] \ lost)
Init == /\ had \in SUBSET Slots /\ lost \in SUBSET Slots /\ call \in Calls /\ silent \in {"default", "yes", "no"}
        /\ call \in {"open", "open only", "profile"} => had = {}
        /\ call = "profile" => silent = "default"
Next == UNCHANGED <<had, lost, call, silent>>
Spec == Init /\ [][Next]_<<had, lost, call, silent>>
Kept == ~New => had \subseteq After
Emit == PrintT("CASE " \o ToJson([had |-> had, lost |-> lost, call |-> call, silent |-> silent, fails |-> Fails, after |-> After]))
=============================================================================
