------------------------------ MODULE DbFaults ------------------------------
(* What may come out of stored databases whose files were tampered with or  *)
(* were left behind by a crash.                                             *)
(*                                                                          *)
(* Slots are the places of files: the manifests of databases A and B and of *)
(* A's metatag m, and the tag files below them. Everything was saved twice, *)
(* so a slot's own bytes exist in versions 1 and 2. A content is            *)
(*    "own1"/"own2"    bytes once saved for exactly this slot,              *)
(*    "gone"           no file,                                             *)
(*    "bad"            anything else: cut, extended or altered bytes, or    *)
(*                     the bytes of another slot.                           *)
EXTENDS Naturals, FiniteSets, Sequences, Json, IOUtils, TLC

Roots == {"A", "Am", "B"}
TagSlots == {"Ax", "Ay", "Amx", "Bx"}
Slots == Roots \cup TagSlots
Root == [Ax |-> "A", Ay |-> "A", Amx |-> "Am", Bx |-> "B"]
Top == [A |-> "A", Am |-> "A", B |-> "B"]
Tree == [A |-> {"A", "Am"}, B |-> {"B"}]

Own(c) == c \in {"own1", "own2"}

(* The outcome of a read: "v1" or "v2" (the value saved for that tag in     *)
(* that version), "absent", "error", or "wrong" (any other value).          *)
(* The outcome of opening A or B: "ok" or "error".                          *)
OpenAllowed(d, content, preload) ==
    IF content[d] = "bad" THEN {"error"}
    ELSE IF \E r \in Tree[d] : content[r] = "bad" THEN {"ok", "error"}
    ELSE IF preload /\ \E s \in TagSlots : Root[s] \in Tree[d] /\ ~Own(content[s])
         THEN {"ok", "error"}    \* preloading reads the listed tags
    ELSE {"ok"}

ReadAllowed(s, content) ==
    LET r == Root[s] IN
    CASE content[Top[r]] = "bad" -> {"error", "absent"}  \* not reachable at all
      [] content[Top[r]] = "gone" \/ content[r] = "gone" -> {"absent"}
      [] content[r] = "bad" -> {"error", "absent"}
      [] content[s] = "own1" -> {"v1"}
      [] content[s] = "own2" -> {"v2"}
      [] content[s] = "gone" -> {"absent"}
      [] OTHER -> {"error"}
-----------------------------------------------------------------------------
(* Which cases to run: every way to disturb up to Faults slots, naming the  *)
(* disturbance to carry out.                                                *)
CONSTANT Faults
Deeds == {"own1", "gone", "empty", "cut", "flip", "ext", "zeros"}
         \cup {"put:" \o s : s \in Slots \cup {"Cx"}}
VARIABLE case
Disturb(S) == [S -> Deeds]
InitCases == \E S \in SUBSET Slots :
                /\ Cardinality(S) <= Faults
                /\ case \in Disturb(S)
                /\ \A s \in S : case[s] # "put:" \o s
NextCases == UNCHANGED case
CaseSpec == InitCases /\ [][NextCases]_case
EmitCase == PrintT("CASE " \o ToJson(case))
=============================================================================
