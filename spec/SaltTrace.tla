------------------------------ MODULE SaltTrace ------------------------------
(* P01. Calls on one salt file made at the same time. Every call takes      *)
(* effect as a whole at one moment between its start and its return; a      *)
(* trace is accepted if some choice of these moments explains all outcomes. *)
(*                                                                          *)
(* Events: <<"call", p, op, v>>  p starts op (v: the salt it brings, or "") *)
(*         <<"ret", p, out>>     it returns; out is "ok", "missing" (the    *)
(*                               file does not exist), "refused" (make on   *)
(*                               a file that exists), or "=" \o salt        *)
(*         <<"stall">>           nobody can go on                           *)
(* A request makes the salt itself; which bytes it made is only learnt when *)
(* they are read, so they get a name ("new" \o p) and a binding.            *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, cfgs, verdict
vars == <<tid, i, cfgs, verdict>>

(* A configuration: the file ("" when absent), the calls under way with     *)
(* "?" or the outcome they already have, and what made salts turned out be. *)
Ops(t) == t.procs
Cfg0(t) == [file |-> t.file, op |-> [p \in 1..t.procs |-> <<"", "">>],
            out |-> [p \in 1..t.procs |-> "-"], bind |-> {}, made |-> 0]

Take(c, p) ==       \* the ways in which p's call can take effect now
    LET op == c.op[p][1]  v == c.op[p][2]
        Set(file, out) == [c EXCEPT !.file = file, !.out[p] = out]
        new == "new" \o ToString(c.made)
    IN CASE op = "read" -> {IF c.file = "" THEN Set("", "missing") ELSE Set(c.file, "=" \o c.file)}
         [] op = "make" -> IF c.file = "" THEN {Set(v, "ok")}
                           ELSE {Set(v, "ok"), Set(c.file, "refused")}
         [] op = "update" -> {IF c.file = "" THEN Set("", "missing") ELSE Set(v, "ok")}
         [] op = "delete" -> {IF c.file = "" THEN Set("", "missing") ELSE Set("", "ok")}
         [] op = "request" ->
                {IF c.file = "" THEN [Set(new, "ok") EXCEPT !.made = @ + 1]
                                ELSE Set(c.file, "ok")}

RECURSIVE Close(_, _)
Close(todo, done) ==
    IF todo = {} THEN done
    ELSE LET next == UNION {UNION {Take(c, p) : p \in {q \in DOMAIN c.out : c.out[q] = "?"}} : c \in todo}
             all == done \cup todo
         IN Close(next \ all, all)

IsNew(s) == Len(s) >= 4 /\ SubSeq(s, 1, 4) = "=new"
Returns(c, p, out) ==
    \/ c.out[p] = out
    \/ \* a salt made by a request: seen for the first time, or seen before
       /\ Len(out) > 0 /\ SubSeq(out, 1, 1) = "="
       /\ IsNew(c.out[p])
       /\ LET n == c.out[p] IN
            IF \E b \in c.bind : b[1] = n THEN <<n, out>> \in c.bind
            ELSE ~\E b \in c.bind : b[2] = out
Bound(c, p, out) ==
    LET d == [c EXCEPT !.out[p] = "-", !.op[p] = <<"", "">>]
    IN IF IsNew(c.out[p]) THEN [d EXCEPT !.bind = @ \cup {<<c.out[p], out>>}] ELSE d

Step(cs, e) ==
    CASE e[1] = "call" -> {[c EXCEPT !.op[e[2]] = <<e[3], e[4]>>, !.out[e[2]] = "?"] : c \in cs}
      [] e[1] = "ret" -> {Bound(c, e[2], e[3]) : c \in {d \in Close(cs, {}) : Returns(d, e[2], e[3])}}
      [] OTHER -> {}

Init == /\ tid \in 1..Len(Traces)
        /\ i = 0
        /\ cfgs = {Cfg0(Traces[tid])}
        /\ verdict = "ok"
Next == /\ verdict = "ok" /\ i < Len(Traces[tid].events)
        /\ LET e == Traces[tid].events[i + 1] IN
           /\ cfgs' = Step(cfgs, e)
           /\ verdict' = IF cfgs' # {} THEN "ok"
                         ELSE "event " \o ToString(i + 1) \o ": " \o
                              (IF e[1] = "ret" THEN e[3] ELSE e[1])
        /\ i' = i + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Accepted == verdict = "ok"
=============================================================================
