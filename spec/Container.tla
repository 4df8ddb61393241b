----------------------------- MODULE Container ------------------------------
(* N04. One container. Names: "s" and "t" are declared, "t" with a type, "h" *)
(* is declared and kept out of the mapping, "d" and "o" are not declared,    *)
(* "o" not being a string, "r" is the name of a method. Values are 1 and 2,  *)
(* 3 being one of a wrong type where types are declared; 0 is no value.      *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Styles
VARIABLES kind, has, act
vars == <<kind, has, act>>
view == <<kind, has>>
Names == {"s", "t", "h", "d", "o", "r"}
Text == ToJson([kind |-> kind, has |-> has])
Act(op, items, res) == [op |-> op, items |-> items, res |-> res]
Kinds ==
    {k \in [style : Styles, frozen : BOOLEAN, dict : BOOLEAN, typed : BOOLEAN] :
        /\ k.style = "instance" => k.frozen /\ ~k.typed
        /\ k.style = "config" => k.frozen /\ ~k.dict /\ k.typed
        /\ k.style = "configs" => k.frozen /\ k.dict /\ k.typed}
\* names the container can be asked for
Known(k) == CASE k.style = "instance" -> {"s", "t", "h", "d"}
              [] k.style = "config" -> {"s", "t", "h", "d"}  \* "h" is its identifier
              [] k.style = "configs" -> {"d", "o", "r"}
              [] OTHER -> Names
\* names for which a value that is already there may be set again
Again(k) == CASE k.style = "config" -> {"h"} [] k.style = "configs" -> {"d", "o"} [] OTHER -> {}
Vals(n) == IF n \in {"s", "d"} THEN {1, 2} ELSE IF n = "t" THEN {1, 3} ELSE IF n = "h" THEN {1, 2} ELSE {1, 3}
WrongType(n, v) == kind.typed /\ v = 3 /\ (n = "t" \/ kind.style = "configs")
Declared(n) == n \in {"s", "t", "h"}
Init == /\ kind \in Kinds /\ has = [n \in Names |-> 0] /\ act = Act("init", <<>>, "")

\* the outcome of setting one name in contents c
Refused(c, n, v) ==
    \/ n = "r"
    \/ ~Declared(n) /\ ~kind.dict
    \/ WrongType(n, v)
    \/ kind.frozen /\ c[n] # 0 /\ ~(n \in Again(kind) /\ c[n] = v)
RECURSIVE Apply(_, _), Fails(_, _)
Apply(c, items) ==
    IF items = <<>> \/ Refused(c, items[1][1], items[1][2]) THEN c
    ELSE Apply([c EXCEPT ![items[1][1]] = items[1][2]], Tail(items))
Fails(c, items) ==
    IF items = <<>> THEN FALSE
    ELSE Refused(c, items[1][1], items[1][2]) \/ Fails([c EXCEPT ![items[1][1]] = items[1][2]], Tail(items))
Set == \E n \in Known(kind) : \E v \in Vals(n) :
    LET items == << <<n, v>> >> IN
    /\ has' = Apply(has, items)
    /\ act' = Act("set", items, IF Fails(has, items) THEN "refused" ELSE "ok")
Update ==
    /\ kind.style # "instance"
    /\ \E n \in Known(kind), m \in Known(kind) \ {"h"} : n # m /\
       \E v \in {1, 3} \cap Vals(n), w \in Vals(m) :
         LET items == << <<n, v>>, <<m, w>> >> IN
         /\ has' = Apply(has, items)
         /\ act' = Act("update", items, IF Fails(has, items) THEN "refused" ELSE "ok")
Del == \E n \in Known(kind) \ {"r"} :
    /\ has' = (IF kind.frozen THEN has ELSE [has EXCEPT ![n] = 0])
    /\ act' = Act("del", << <<n, 0>> >>, IF kind.frozen \/ has[n] = 0 THEN "refused" ELSE "ok")
Clear ==
    /\ kind.style # "instance"
    /\ has' = (IF kind.frozen THEN has ELSE [n \in Names |-> 0])
    /\ act' = Act("clear", <<>>, IF ~kind.frozen THEN "ok" ELSE IF \A n \in Names : has[n] = 0 THEN "any" ELSE "refused")
Next == (Set \/ Update \/ Del \/ Clear) /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars
\* what a frozen container holds it keeps
Keeps == [][kind.frozen => \A n \in Names : has[n] # 0 => has'[n] = has[n]]_vars
Types == \A n \in Names : has[n] = 3 => ~WrongType(n, 3)
RefusedQuietly == [][act'.res = "refused" /\ act'.op # "update" => has' = has]_vars
Emit == PrintT("EDGE " \o ToJson(<<Text, act', Text'>>))
EmitInit == act.op = "init" => PrintT("INIT " \o Text)
=============================================================================
