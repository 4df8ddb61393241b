------------------------------ MODULE FileCalls ------------------------------
(* N09. The asynchronous file calls on two names, each of which may be a     *)
(* file or a directory holding one more entry. A call has the result of the  *)
(* system's call, or fails as it does and changes nothing.                   *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Names, Sizes
VARIABLES tree, act
view == <<tree>>
None == [kind |-> "none", size |-> 0, mode |-> 0, own |-> 0, in |-> "none"]
File(s) == [kind |-> "file", size |-> s, mode |-> 1, own |-> 0, in |-> "none"]
Dir(i) == [kind |-> "dir", size |-> 0, mode |-> 1, own |-> 0, in |-> i]
Act(op, n, m, x, res) == [op |-> op, n |-> n, m |-> m, x |-> x, res |-> res]
Init == tree = [n \in Names |-> None] /\ act = Act("init", "", "", 0, "")
Do(op, n, m, x, res, new) == act' = Act(op, n, m, x, res) /\ tree' = IF res = "ok" THEN new ELSE tree
With(n, e) == [tree EXCEPT ![n] = e]
K(n) == tree[n].kind
\* the harness writes files itself
Write(n, s) == K(n) = "none" /\ Do("write", n, "", s, "ok", With(n, File(s)))
WriteIn(n) == K(n) = "dir" /\ tree[n].in = "none" /\ Do("write in", n, "", 0, "ok", With(n, [tree[n] EXCEPT !.in = "file"]))
Mkdir(n) == Do("mkdir", n, "", 0, IF K(n) = "none" THEN "ok" ELSE "exists", With(n, Dir("none")))
MkdirIn(n) ==
    Do("mkdir in", n, "", 0,
       CASE K(n) = "none" -> "missing" [] K(n) = "file" -> "not a directory"
         [] tree[n].in # "none" -> "exists" [] OTHER -> "ok",
       With(n, [tree[n] EXCEPT !.in = "dir"]))
Makedirs(n, ok) ==
    LET res == CASE K(n) = "file" -> "not a directory"
                 [] K(n) = "dir" /\ tree[n].in = "file" -> "exists"
                 [] K(n) = "dir" /\ tree[n].in = "dir" -> IF ok = 1 THEN "ok" ELSE "exists"
                 [] OTHER -> "ok"
    IN Do("makedirs", n, "", ok, res, IF K(n) = "none" THEN With(n, Dir("dir")) ELSE With(n, [tree[n] EXCEPT !.in = "dir"]))
Gone == [none |-> "missing", file |-> "ok", dir |-> "is a directory"]
Remove(n) == Do("remove", n, "", 0, Gone[K(n)], With(n, None))
RemoveIn(n) ==
    Do("remove in", n, "", 0,
       CASE K(n) = "none" -> "missing" [] K(n) = "file" -> "not a directory" [] OTHER -> Gone[tree[n].in],
       With(n, [tree[n] EXCEPT !.in = "none"]))
Rmdir(n) ==
    Do("rmdir", n, "", 0,
       CASE K(n) = "none" -> "missing" [] K(n) = "file" -> "not a directory"
         [] tree[n].in # "none" -> "not empty" [] OTHER -> "ok",
       With(n, None))
Rename(n, m) == n # m /\
    Do("rename", n, m, 0,
       CASE K(n) = "none" -> "missing"
         [] K(n) = "file" /\ K(m) = "dir" -> "is a directory"
         [] K(n) = "dir" /\ K(m) = "file" -> "not a directory"
         [] K(n) = "dir" /\ K(m) = "dir" /\ tree[m].in # "none" -> "not empty"
         [] OTHER -> "ok",
       [tree EXCEPT ![m] = tree[n], ![n] = None])
Found(n) == IF K(n) = "none" THEN "missing" ELSE "ok"
Stat(n) == Do("stat", n, "", 0, Found(n), tree)
Chmod(n, x) == Do("chmod", n, "", x, Found(n), With(n, [tree[n] EXCEPT !.mode = x]))
Chown(n, x) == Do("chown", n, "", x, Found(n), With(n, [tree[n] EXCEPT !.own = x]))
\* the rest of one file, after its first byte, is put in the place of another's content
Send(n, m) == n # m /\ K(n) = "file" /\ K(m) = "file" /\ tree[n].size > 0
    /\ Do("sendfile", n, m, tree[n].size - 1, "ok", With(m, [tree[m] EXCEPT !.size = tree[n].size - 1]))
Next ==
    \E n \in Names :
        \/ \E s \in Sizes : Write(n, s)
        \/ WriteIn(n) \/ Mkdir(n) \/ MkdirIn(n) \/ Remove(n) \/ RemoveIn(n) \/ Rmdir(n) \/ Stat(n)
        \/ \E x \in {0, 1} : Makedirs(n, x) \/ Chmod(n, x) \/ Chown(n, x)
        \/ \E m \in Names : Rename(n, m) \/ Send(n, m)
Spec == Init /\ [][Next]_<<view, act>>
Sound == \A n \in Names : K(n) # "dir" => tree[n].in = "none"
Rec(t) == ToJson(t)
Emit == PrintT("EDGE " \o ToJson(<<Rec(tree), act', Rec(tree')>>))
EmitInit == act.op = "init" => PrintT("INIT " \o Rec(tree))
=============================================================================
