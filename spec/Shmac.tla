------------------------------- MODULE Shmac --------------------------------
(* M01. A key bundle and the authenticators 1 and 2 made from it. Blocks    *)
(* pass through an authenticator by way of the one cipher run its bundle    *)
(* allows. `iv` is whether the bundle's iv was drawn or given.              *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Steps, Sizes, MinId, MaxId, Ivs
VARIABLES iv, kind, owner, dir, steps, fin, act
view == <<iv, kind, owner, dir, steps, fin>>
A == {1, 2}
Act(op, i, x, res) == [op |-> op, i |-> i, x |-> x, res |-> res]
Init == /\ iv \in Ivs /\ kind = "none" /\ owner = 0 /\ dir = [i \in A |-> "absent"]
        /\ steps = 0 /\ fin = [i \in A |-> 0] /\ act = Act("init", 0, "", "")
Refuse(op, i, x) == act' = Act(op, i, x, "refused") /\ UNCHANGED view
SetKind(k) ==
    IF kind # "none" THEN Refuse("kind", 0, k)
    ELSE kind' = k /\ act' = Act("kind", 0, k, "ok") /\ UNCHANGED <<iv, owner, dir, steps, fin>>
Make(i) ==
    /\ dir[i] = "absent"
    /\ IF kind = "none" THEN Refuse("make", i, "")
       ELSE dir' = [dir EXCEPT ![i] = "none"] /\ act' = Act("make", i, "", "ok")
            /\ UNCHANGED <<iv, kind, owner, steps, fin>>
Direct(i, d) ==
    /\ dir[i] # "absent"
    /\ IF dir[i] # "none" \/ iv # (IF d = "enc" THEN "drawn" ELSE "given") THEN Refuse("direct", i, d)
       ELSE dir' = [dir EXCEPT ![i] = d] /\ act' = Act("direct", i, d, "ok")
            /\ UNCHANGED <<iv, kind, owner, steps, fin>>
\* starting the cipher run of direction d and kind k
Run(i, d, k) ==
    /\ dir[i] # "absent" /\ fin[i] = 0
    /\ IF dir[i] # d \/ kind # k \/ owner # 0 THEN Refuse("run", i, <<d, k>>)
       ELSE owner' = i /\ act' = Act("run", i, <<d, k>>, "ok")
            /\ UNCHANGED <<iv, kind, dir, steps, fin>>
Step(i) ==
    /\ owner = i /\ steps < Steps
    /\ IF fin[i] = 1 THEN Refuse("step", i, "")
       ELSE steps' = steps + 1 /\ act' = Act("step", i, "", "ok")
            /\ UNCHANGED <<iv, kind, owner, dir, fin>>
Finalize(i) ==
    /\ dir[i] \in {"enc", "dec"}
    /\ IF fin[i] = 1 THEN Refuse("finalize", i, "")
       ELSE fin' = [fin EXCEPT ![i] = 1] /\ act' = Act("finalize", i, "", "ok")
            /\ UNCHANGED <<iv, kind, owner, dir, steps>>
Result(i) ==
    /\ dir[i] # "absent" /\ UNCHANGED view
    /\ act' = Act("result", i, "", IF fin[i] = 1 THEN "ok" ELSE "refused")
Test(i, x) ==
    /\ dir[i] # "absent" /\ UNCHANGED view
    /\ act' = Act("test", i, x, IF fin[i] = 0 \/ x = "text" THEN "refused"
                                ELSE IF x = "right" THEN "ok" ELSE "invalid")
Id(i, n) ==
    /\ dir[i] \in {"enc", "dec"} /\ UNCHANGED view
    /\ act' = Act("id", i, n, IF fin[i] = 1 \/ n < MinId \/ n > MaxId THEN "refused" ELSE "ok")
TestId(i, x) ==
    /\ dir[i] \in {"enc", "dec"} /\ fin[i] = 0 /\ UNCHANGED view
    /\ act' = Act("testid", i, x, IF x = "right" THEN "ok" ELSE IF x \in {"text", "short", "long"} THEN "refused" ELSE "invalid")
Next == \/ \E k \in {"sync", "async"} : SetKind(k)
        \/ \E i \in A :
             \/ Make(i) \/ Step(i) \/ Finalize(i) \/ Result(i)
             \/ \E d \in {"enc", "dec"} : Direct(i, d) \/ \E k \in {"sync", "async"} : Run(i, d, k)
             \/ \E x \in {"right", "wrong", "short", "text"} : Test(i, x)
             \/ \E n \in Sizes : Id(i, n)
             \/ \E x \in {"right", "wrong", "cut", "block", "aad", "short", "long", "text"} : TestId(i, x)
Spec == Init /\ [][Next]_<<view, act>>
OneDirection == [][\A i \in A : dir[i] \in {"enc", "dec"} => dir'[i] = dir[i]]_<<view, act>>
OneOwner == [][owner # 0 => owner' = owner]_<<view, act>>
NoLateUpdate == [][steps' # steps => fin[owner] = 0]_<<view, act>>
Drawn == \A i \in A : /\ dir[i] = "enc" => iv = "drawn"
                      /\ dir[i] = "dec" => iv = "given"
Rec(a, b, c, d, e, f) == ToJson([iv |-> a, kind |-> b, owner |-> c, dir |-> d, steps |-> e, fin |-> f])
Text == Rec(iv, kind, owner, dir, steps, fin)
Emit == PrintT("EDGE " \o ToJson(<<Text, act', Rec(iv', kind', owner', dir', steps', fin')>>))
EmitInit == act.op = "init" => PrintT("INIT " \o Text)
=============================================================================
