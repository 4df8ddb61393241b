------------------------------ MODULE DHObject ------------------------------
(* K01. The calls a client and a server object of one exchange take. `c`     *)
(* and `s` say how far each has come, `sawC` and `sawS` whether what it got  *)
(* was what the other had sent. What a server object does after it was given *)
(* a wrong kind of key is not laid down.                                      *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANT Calls
VARIABLES c, s, sawC, sawS, n, act
view == <<c, s, sawC, sawS, n>>
\* "twice": two tasks make the call at once and one of them gets through
Good == {"good", "twice"}
Bad == {"text", "short", "long", "secret", "number", "nothing", "signing", "mutable"}
Act(op, x, res) == [op |-> op, x |-> x, res |-> res]
Init == c = "new" /\ s = "new" /\ sawC = 0 /\ sawS = 0 /\ n = 0 /\ act = Act("init", "", "")
More == n < Calls /\ n' = n + 1
Refuse(op, x) == act' = Act(op, x, "refused") /\ UNCHANGED <<c, s, sawC, sawS>>
ClientSend(x) ==
    /\ More
    /\ IF c = "new" /\ x \in Good THEN c' = "sent" /\ act' = Act("csend", x, "ok") /\ UNCHANGED <<s, sawC, sawS>>
       ELSE Refuse("csend", x)
ClientReceive(x) ==
    /\ More
    /\ IF c = "sent" /\ x \in Good
       THEN c' = "done" /\ act' = Act("creceive", x, "ok") /\ sawC' = (IF s = "done" THEN 1 ELSE 0) /\ UNCHANGED <<s, sawS>>
       ELSE Refuse("creceive", x)
ServerReceive(x) ==
    /\ More
    /\ IF s = "new" /\ x \in Good
       THEN s' = "done" /\ act' = Act("sreceive", x, "ok") /\ sawS' = (IF c = "new" THEN 0 ELSE 1) /\ UNCHANGED <<c, sawC>>
       ELSE IF s = "new" /\ x \notin Good
       THEN s' = "spoilt" /\ act' = Act("sreceive", x, "refused") /\ UNCHANGED <<c, sawC, sawS>>
       ELSE s # "spoilt" /\ Refuse("sreceive", x)
ServerSend ==
    /\ More /\ s # "spoilt" /\ UNCHANGED <<c, s, sawC, sawS>>
    /\ act' = Act("ssend", "", IF s = "done" THEN "ok" ELSE "refused")
\* setting or deleting the objects' attributes
Meddle(w) == More /\ Refuse("meddle", w)
Next == \/ \E x \in Bad \cup Good : ClientSend(x) \/ ClientReceive(x) \/ ServerReceive(x)
        \/ ServerSend \/ \E w \in {"client", "server"} : Meddle(w)
Spec == Init /\ [][Next]_<<view, act>>
Once == [][/\ (c = "done" => c' = "done") /\ (c = "sent" => c' # "new")
           /\ (s = "done" => s' = "done") /\ (sawS = 1 => sawS' = 1)]_<<view, act>>
Agree == c = "done" /\ s = "done" /\ sawC = 1 /\ sawS = 1
Rec(a, b, d, e, f) == ToJson([c |-> a, s |-> b, sawC |-> d, sawS |-> e, n |-> f])
Text == Rec(c, s, sawC, sawS, n)
Emit == PrintT("EDGE " \o ToJson(<<Text, act', Rec(c', s', sawC', sawS', n')>>))
EmitInit == act.op = "init" => PrintT("INIT " \o Text)
=============================================================================
