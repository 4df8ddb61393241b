---------------------------- MODULE DbTasksTrace ----------------------------
(* D07. Calls that tasks make at the same time on one tag of an async        *)
(* database. Every call takes effect as a whole at one moment between its    *)
(* start and its end; a trace is accepted if some choice of these moments    *)
(* explains all outcomes. Other tags are other traces: they do not matter.   *)
(* Some have two moments. A pop deletes the file in the first; in the second *)
(* the cached value goes, which is the one returned if there is one. A query *)
(* that finds nothing cached reads the file later.                           *)
(*                                                                           *)
(* Events: <<"call", p, op, v>>  p starts op (v: the value it brings, or "") *)
(*         <<"ret", p, out>>     it returns: "ok", "missing", "refused",     *)
(*                               "yes", "no" or "=" \o value                 *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, cfgs, verdict
vars == <<tid, i, cfgs, verdict>>

(* A configuration: the cached and the stored value ("" when absent), and    *)
(* the calls under way with "?" or the outcome they already have; "!" is a   *)
(* call after its first moment, and rem what a pop found then.               *)
Cfg0(t) == [cache |-> t.cache, disk |-> t.disk, op |-> [p \in 1..t.tasks |-> <<"", "">>],
            out |-> [p \in 1..t.tasks |-> "-"], rem |-> [p \in 1..t.tasks |-> ""]]

Take(c, p) ==
    LET op == c.op[p][1]  v == c.op[p][2]
        Set(cache, disk, out) == [c EXCEPT !.cache = cache, !.disk = disk, !.out[p] = out]
        now == IF c.cache # "" THEN c.cache ELSE c.disk
        Out(x) == IF x = "" THEN "missing" ELSE "=" \o x
        Found == Out(now)
        Later == IF c.cache = "" THEN {[c EXCEPT !.out[p] = "!"]} ELSE {}
    IN IF c.out[p] = "!" /\ op = "query" THEN {Set(c.cache, c.disk, Out(c.disk))} ELSE
       IF c.out[p] = "!" /\ op = "load"
       THEN {Set(k, c.disk, Out(c.disk)) : k \in {c.cache, IF c.cache = "" THEN c.disk ELSE c.cache}} ELSE
       IF c.out[p] = "!" THEN {[c EXCEPT !.cache = "", !.rem[p] = "",
                                         !.out[p] = Out(IF c.cache # "" THEN c.cache ELSE c.rem[p])]} ELSE
       CASE op = "set" -> {Set(v, c.disk, "ok")}
         [] op = "query" -> {Set(c.cache, c.disk, Found)} \cup Later
         \* a value is not loaded into the cache while it is popped
         [] op = "load" -> {Set(now, c.disk, Found), Set(c.cache, c.disk, Found)} \cup Later
         [] op = "pop" -> {[Set(c.cache, "", "!") EXCEPT !.rem[p] = now]}
         [] op = "rollback" -> {Set("", c.disk, "ok")}
         \* whether another task's save has already taken the value from the
         \* cache is not said
         [] op = "save" -> (IF now = "" THEN {} ELSE {Set(c.cache, now, "ok")}) \cup {Set(c.cache, c.disk, "refused")}
         [] op = "drop" -> (IF now = "" THEN {} ELSE {Set("", now, "ok")}) \cup {Set(c.cache, c.disk, "refused")}
         [] op = "put" -> {Set("", v, "ok")}
         [] op = "saveall" -> {Set(c.cache, now, "ok")}
         [] op = "reopen" -> {Set("", c.disk, "ok")}
         [] op = "listed" -> {Set(c.cache, c.disk, IF now = "" THEN "no" ELSE "yes")}

RECURSIVE Close(_, _)
Close(todo, done) ==
    IF todo = {} THEN done
    ELSE LET next == UNION {UNION {Take(c, p) : p \in {q \in DOMAIN c.out : c.out[q] \in {"?", "!"}}} : c \in todo}
             all == done \cup todo
         IN Close(next \ all, all)

Step(cs, e) ==
    CASE e[1] = "call" -> {[c EXCEPT !.op[e[2]] = <<e[3], e[4]>>, !.out[e[2]] = "?"] : c \in cs}
      [] e[1] = "ret" -> {[c EXCEPT !.out[e[2]] = "-", !.op[e[2]] = <<"", "">>] :
                          c \in {d \in Close(cs, {}) : d.out[e[2]] = e[3]}}

Init == /\ tid \in 1..Len(Traces) /\ i = 0 /\ cfgs = {Cfg0(Traces[tid])} /\ verdict = "ok"
Next == /\ verdict = "ok" /\ i < Len(Traces[tid].events)
        /\ LET e == Traces[tid].events[i + 1] IN
           /\ cfgs' = Step(cfgs, e)
           /\ verdict' = IF cfgs' # {} THEN "ok"
                         ELSE "event " \o ToString(i + 1) \o ": " \o e[3]
        /\ i' = i + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Accepted == verdict = "ok"
=============================================================================
