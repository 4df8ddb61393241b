------------------------------- MODULE Daemon -------------------------------
(* R03. The background gathering of entropy. Time is in 1/1024 seconds. Each   *)
(* iteration adds one value to the pool and sleeps for less than the limit   *)
(* in force: the temporary one before its end, the initial one after it. A   *)
(* sleep under a temporary limit exceeds the remaining time by a second at   *)
(* most. Many iterations are made under one limit: some of their sleeps  *)
(* are longer than half of the limit.                                        *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Limits, Temps, Spans, Steps
VARIABLES limit, temp, left, alive, act
view == <<limit, temp, left, alive>>
Act(op, a, b, hi, lo) == [op |-> op, a |-> a, b |-> b, hi |-> hi, lo |-> lo]
\* left: the time until the temporary limit ends (0: there is none)
Init == /\ limit \in Limits /\ temp = 0 /\ left = 0 /\ alive = 1
        /\ act = Act("init", limit, 0, 0, 0)
Min(a, b) == IF a < b THEN a ELSE b
Highest == IF left = 0 THEN limit ELSE Min(temp, left + 1024)
Surely == IF left = 0 THEN limit ELSE Min(temp, left)
More == alive = 1
SetMax(d) == /\ More /\ act' = Act("max", d, 0, 0, 0)
             /\ IF d > 0 THEN limit' = d /\ temp' = d /\ UNCHANGED <<left, alive>>
                ELSE UNCHANGED <<limit, temp, left, alive>>
SetTemp(d, s) == /\ More /\ act' = Act("temp", d, s, 0, 0)
                 /\ IF d > 0 THEN temp' = d /\ left' = s /\ UNCHANGED <<limit, alive>>
                    ELSE UNCHANGED <<limit, temp, left, alive>>
\* the clock moves on by s, then iterations are made
Rounds(s) == /\ More /\ left' = (IF s >= left THEN 0 ELSE left - s)
             /\ temp' = (IF s >= left THEN 0 ELSE temp) /\ UNCHANGED <<limit, alive>>
             /\ act' = Act("rounds", s, 0, Highest', Surely' \div 2)
Cancel == /\ More /\ alive' = 0 /\ act' = Act("cancel", 0, 0, 0, 0) /\ UNCHANGED <<limit, temp, left>>
Next == \/ \E d \in Limits \cup {0, -1} : SetMax(d)
        \/ \E d \in Temps \cup {0, -1}, s \in Spans : SetTemp(d, s)
        \/ \E s \in Steps : Rounds(s)
        \/ Cancel
Spec == Init /\ [][Next]_<<view, act>>
Restored == [][act'.op = "rounds" /\ act'.a >= left => act'.hi = limit]_<<view, act>>
Bounded == [][act'.op = "rounds" /\ act'.a < left => act'.hi <= temp]_<<view, act>>
Rec(a, b, c, d) == ToJson(<<a, b, c, d>>)
Text == Rec(limit, temp, left, alive)
Emit == PrintT("EDGE " \o ToJson(<<Text, act', Rec(limit', temp', left', alive')>>))
EmitInit == act.op = "init" => PrintT("INIT " \o Text)
=============================================================================
