------------------------------ MODULE Choices -------------------------------
(* R02. Two selections that are equal except for one thing. Indexes depend   *)
(* on the number of elements, the number selected, domain and key (and for   *)
(* mnemonics on passphrase, salt and settings), not on what the elements are.*)
(* "wide": long selections from a sequence of about 2^count elements reach   *)
(* every part of it.                                                         *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Sizes, Counts, Kinds
VARIABLES kind, size, count, other, sides
vars == <<kind, size, count, other, sides>>
Keyed == {"same", "elements", "key", "domain", "count", "size"}
Phrase == {"same", "elements", "passphrase", "salt", "mb", "cpu", "cores", "count", "size"}
Init == /\ kind \in Kinds /\ size \in Sizes /\ count \in Counts
        /\ other \in CASE kind = "keyed" -> Keyed [] kind = "phrase" -> Phrase
                       [] kind = "fresh" -> {"same", "settings"}
                       [] kind = "wide" -> {"keyed", "phrase", "fresh"}
        /\ sides \in {<<a, b>> : a \in {0, 1}, b \in {0, 1}}
Spec == Init /\ [][UNCHANGED vars]_vars
Outcome == CASE kind = "wide" -> "reached"
             [] kind = "fresh" -> IF other = "settings" THEN "refused" ELSE "other"
             [] other \in {"same", "elements"} -> "same" [] OTHER -> "other"
EmitCase == PrintT("CASE " \o ToJson([kind |-> kind, size |-> size, count |-> count, other |-> other,
                                      sides |-> sides, outcome |-> Outcome]))
=============================================================================
