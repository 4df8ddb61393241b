----------------------------- MODULE SaltCalls ------------------------------
(* P02. Salt file calls one after another, some with a failing file         *)
(* operation. CaseSpec lets TLC enumerate what to run; Bad judges a step    *)
(* c = [before, op, len, fault, out, after, mode, got, extra]; extra counts *)
(* the files beside the salt file.                                          *)
(* before/after: "none", "short" (planted, under 32 bytes), or a salt.      *)
(* "v" is the salt given to the call, "fresh" one it made up.               *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANT Depth
Calls == {<<"make", 0>>, <<"make", 1>>, <<"make", 31>>, <<"make", 32>>, <<"make", 33>>, <<"make", 200>>,
          <<"update", 0>>, <<"update", 1>>, <<"update", 31>>, <<"update", 32>>, <<"update", 64>>,
          <<"read", 0>>, <<"delete", 0>>, <<"request", 0>>,
          <<"plant", 0>>, <<"plant", 31>>, <<"plant", 32>>}
VARIABLE case
CaseInit == \E n \in 1..Depth : case \in [1..n -> Calls]
CaseSpec == CaseInit /\ [][UNCHANGED case]_case
EmitCase == PrintT("CASE " \o ToJson(case))

Exists(x) == x # "none"
Salt(x) == x \notin {"none", "short"}
\* the outcomes and resulting contents a call may have when nothing fails
Allowed(b, op, len) ==
    CASE op = "make" /\ len \in 1..31 -> {<<"value", b>>}
      [] op = "make" -> {<<"ok", IF len = 0 THEN "fresh" ELSE "v">>}
                        \cup (IF Exists(b) THEN {<<"refused", b>>} ELSE {})
      [] op = "update" /\ len < 32 -> {<<"value", b>>}
      [] op = "update" -> {IF Exists(b) THEN <<"ok", "v">> ELSE <<"missing", b>>}
      [] op = "read" -> {IF ~Exists(b) THEN <<"missing", b>> ELSE IF b = "short" THEN <<"value", b>>
                         ELSE <<"ok", b>>}
      [] op = "delete" -> {IF Exists(b) THEN <<"ok", "none">> ELSE <<"missing", b>>}
      [] op = "request" -> {<<"ok", IF Exists(b) THEN b ELSE "fresh">>}
Bad(c) ==
    IF c.after # "none" /\ c.mode # 0 THEN "permission bits are left"
    ELSE IF c.extra # 0 THEN "another file is left behind"
    ELSE IF c.out = "failed" /\ ~c.fault THEN "an unexpected error"
    ELSE IF c.out = "failed"
         THEN IF c.after = c.before THEN "ok"
              ELSE IF c.op = "delete" /\ c.after = "none" THEN "ok"
              ELSE IF ~Exists(c.before) /\ Salt(c.after) THEN "ok"
              ELSE "a failed call changed the salt"
    ELSE IF <<c.out, c.after>> \notin Allowed(c.before, c.op, c.len) THEN "the outcome of the call"
    ELSE IF c.op = "read" /\ c.out = "ok" /\ c.got # c.before THEN "the salt returned"
    ELSE "ok"
(* An image: what a program ending inside the call would leave.             *)
BadImage(c) ==
    IF c.image \in {"none", "fresh", "v", c.before} /\ (c.image = "none" => c.before = "none" \/ c.op = "delete")
    THEN "ok" ELSE "a program that ends there leaves a torn salt"
=============================================================================
