------------------------------ MODULE Displays ------------------------------
(* N08. Objects holding secrets are shown, and calls given secrets fail,     *)
(* while the package's debugging switch is turned on and off. `shown` is     *)
(* what a display or error may contain: only with debugging on may the text  *)
(* of a display contain what the object holds. Errors never do.              *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Objects, Calls
VARIABLES debug, turns, act
view == <<debug, turns>>
Forms == {"repr", "str", "format", "container", "error argument"}
Act(op, x, form, res) == [op |-> op, x |-> x, form |-> form, res |-> res]
Init == debug = 0 /\ turns = 0 /\ act = Act("init", "", "", "")
Turn(d) == /\ turns < 3 /\ debug' = d /\ turns' = turns + 1
           /\ act' = Act(IF d = 1 THEN "enable" ELSE "disable", "", "", "ok")
Show(o, f) == UNCHANGED view /\ act' = Act("show", o, f, IF debug = 1 THEN "open" ELSE "hidden")
Fail(c) == UNCHANGED view /\ act' = Act("fail", c, "", "hidden")
Next == \/ \E d \in {0, 1} : Turn(d)
        \/ \E o \in Objects, f \in Forms : Show(o, f)
        \/ \E c \in Calls : Fail(c)
Spec == Init /\ [][Next]_<<view, act>>
Masked == [][act'.op = "show" /\ debug = 0 => act'.res = "hidden"]_<<view, act>>
Rec(d, t) == ToJson([debug |-> d, turns |-> t])
Emit == PrintT("EDGE " \o ToJson(<<Rec(debug, turns), act', Rec(debug', turns')>>))
EmitInit == act.op = "init" => PrintT("INIT " \o Rec(debug, turns))
=============================================================================
