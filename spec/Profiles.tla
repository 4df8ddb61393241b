------------------------------ MODULE Profiles ------------------------------
(* D06. Two profiles, "p" and "q", whose credentials differ in one respect. *)
(* A profile that is opened exists from then on, empty at first. What a     *)
(* write puts into one profile is what a later opening of exactly that      *)
(* profile reads, and nobody else ever does.                                *)
(*                                                                          *)
(* SameDir: they are kept in one directory, and so share its device salt.   *)
(* SameSalt: they differ only in passphrase or cost settings, and use one   *)
(* salt file. Shared = TRUE describes what the code does then: deleting one *)
(* of them removes the salt of both, and so the other one is unreachable    *)
(* (a known finding).                                                       *)
EXTENDS Integers, FiniteSets, Sequences, Json, TLC
CONSTANTS SameDir, SameSalt, Shared, Vals
P == {"p", "q"}
Dir == [p |-> "d1", q |-> IF SameDir THEN "d1" ELSE "d2"]
Other(x) == IF x = "p" THEN "q" ELSE "p"
VARIABLES data, salt, act
\* data[x]: -1 not there, 0 empty, else its value; salt[x]: it has a salt file.
\* act.lost, act.orphan: files and salts in the directory of act.x which the
\* step leaves behind, out of anybody's reach.
view == <<data, salt>>
Act(op, x, v, lost, orphan) ==
    [op |-> op, x |-> x, v |-> v, lost |-> lost, orphan |-> orphan]
Init == /\ data = [x \in P |-> -1] /\ salt = [x \in P |-> FALSE]
        /\ act = Act("init", "p", 0, 0, 0)
Users(x) == IF SameSalt THEN P ELSE {x}
Files(v) == IF v = -1 THEN 0 ELSE IF v = 0 THEN 1 ELSE 2
Touch(x, v) == /\ data' = [data EXCEPT ![x] = v]
               /\ salt' = [y \in P |-> salt[y] \/ y \in Users(x)]
Open(x) == /\ Touch(x, IF data[x] = -1 THEN 0 ELSE data[x])
           /\ act' = Act("open", x, data'[x], 0, 0)
Write(x, v) == Touch(x, v) /\ act' = Act("write", x, v, 0, 0)
Delete(x) ==
    LET y == Other(x)  hit == Shared /\ SameSalt
        keep == SameSalt /\ ~Shared /\ data[y] # -1 IN
    /\ data' = [data EXCEPT ![x] = -1, ![y] = IF hit THEN -1 ELSE @]
    /\ salt' = [z \in P |-> IF z \in Users(x) THEN keep ELSE salt[z]]
    /\ act' = Act("delete", x, 0, IF hit THEN Files(data[y]) ELSE 0, 0)
NewDevice(x) ==  \* the device salt of x's directory is lost
    LET here == {y \in P : Dir[y] = Dir[x]} IN
    /\ SameDir => x = "p"
    /\ \E y \in here : salt[y]
    /\ data' = [y \in P |-> IF y \in here THEN -1 ELSE data[y]]
    /\ salt' = [y \in P |-> y \notin here /\ salt[y]]
    /\ act' = Act("device", x, 0,
                  Files(data[x]) + (IF SameDir THEN Files(data["q"]) ELSE 0),
                  IF SameSalt THEN 1 ELSE Cardinality({y \in here : salt[y]}))
Next == \E x \in P : \/ Open(x) \/ Delete(x) \/ NewDevice(x)
                     \/ \E v \in Vals : Write(x, v)
Spec == Init /\ [][Next]_<<view, act>>
\* what happens to one profile never depends on the other
Apart == [][\A x \in P : data'[x] # data[x] => act'.x = x \/ act'.op = "device"]_<<view, act>>
Kept == \A x \in P : data[x] # -1 => salt[x]
Salts == [x \in P |-> IF salt[x] THEN 1 ELSE 0]
Text == ToJson([data |-> data, salt |-> Salts])
Emit == PrintT("EDGE " \o ToJson(<<Text, act', ToJson([data |-> data',
                    salt |-> [x \in P |-> IF salt'[x] THEN 1 ELSE 0]])>>))
EmitInit == act.op = "init" => PrintT("INIT " \o Text)
=============================================================================
