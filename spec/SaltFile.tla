------------------------------ MODULE SaltFile ------------------------------
(* The salt file protocol as a model: calls of several processes, each a    *)
(* sequence of file operations under an exclusive guard. Checked by TLC:    *)
(* whatever the interleaving, and wherever the whole program ends, the file *)
(* is absent or holds one complete salt, and reads return such a salt.      *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Procs, Exclusive, Atomic
\* Exclusive: readers take the guard exclusively.
\* Atomic: a salt is written aside and moved into place.
VARIABLES file, mode, temp, guard, pc, op, got
vars == <<file, mode, temp, guard, pc, op, got>>
Short == 99
Kinds == {"read", "update", "make", "delete", "request"}
Init == /\ file \in {0, 50} /\ mode = "locked" /\ temp = [p \in Procs |-> 0]
        /\ guard = {} /\ pc = [p \in Procs |-> "idle"]
        /\ op \in [Procs -> Kinds] /\ got = [p \in Procs |-> 0]
Shared(p) == op[p] = "read" /\ ~Exclusive
Go(p, l) == pc' = [pc EXCEPT ![p] = l]
Enter(p) ==
    /\ pc[p] = "idle"
    /\ IF Shared(p) THEN \A q \in guard : Shared(q) ELSE guard = {}
    /\ guard' = guard \cup {p}
    /\ Go(p, CASE op[p] = "read" -> "unlock" [] op[p] = "update" -> "unlock"
               [] op[p] = "delete" -> "unlock"
               [] op[p] = "make" -> "write"
               [] OTHER -> IF file = 0 THEN "write" ELSE "leave")
    /\ UNCHANGED <<file, mode, temp, op, got>>
Unlock(p) ==
    /\ pc[p] = "unlock"
    /\ IF file = 0 THEN Go(p, "leave") /\ UNCHANGED mode
       ELSE /\ mode' = "open"
            /\ Go(p, CASE op[p] = "read" -> "read" [] op[p] = "update" -> "write" [] OTHER -> "remove")
    /\ UNCHANGED <<file, temp, guard, op, got>>
Read(p) == /\ pc[p] = "read"
           /\ got' = [got EXCEPT ![p] = IF mode = "locked" THEN 98 ELSE file]
           /\ Go(p, "lock") /\ UNCHANGED <<file, mode, temp, guard, op>>
Write(p) == /\ pc[p] = "write"
            /\ IF Atomic THEN temp' = [temp EXCEPT ![p] = p] /\ UNCHANGED file /\ Go(p, "move")
               ELSE file' = Short /\ UNCHANGED temp /\ Go(p, "fill")
            /\ UNCHANGED <<mode, guard, op, got>>
Fill(p) == /\ pc[p] = "fill" /\ file' = p /\ Go(p, "lock")
           /\ UNCHANGED <<mode, temp, guard, op, got>>
Move(p) == /\ pc[p] = "move" /\ file' = temp[p] /\ mode' = "locked" /\ Go(p, "leave")
           /\ UNCHANGED <<temp, guard, op, got>>
Remove(p) == /\ pc[p] = "remove" /\ file' = 0 /\ Go(p, "leave")
             /\ UNCHANGED <<mode, temp, guard, op, got>>
Lock(p) == /\ pc[p] = "lock" /\ mode' = "locked" /\ Go(p, "leave")
           /\ UNCHANGED <<file, temp, guard, op, got>>
Leave(p) == /\ pc[p] = "leave" /\ guard' = guard \ {p} /\ Go(p, "done")
            /\ UNCHANGED <<file, mode, temp, op, got>>
Next == \E p \in Procs : Enter(p) \/ Unlock(p) \/ Read(p) \/ Write(p) \/ Fill(p)
                         \/ Move(p) \/ Remove(p) \/ Lock(p) \/ Leave(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NeverShort == file # Short
ReadsWhole == \A p \in Procs : got[p] \notin {Short, 98}
LockedAtRest == guard = {} /\ file # 0 => mode = "locked"
Done == <>(\A p \in Procs : pc[p] = "done")
=============================================================================
