----------------------------- MODULE PassLimits -----------------------------
(* K03. What a hash asks for against what the verifier allows: each resource *)
(* below, at, within or above the verifier's range, which is the default or  *)
(* a narrower or wider one. Work begins only if all three are allowed.       *)
EXTENDS Integers, Sequences, Json, TLC
VARIABLES mb, cpu, cores, range, fresh
vars == <<mb, cpu, cores, range, fresh>>
Places == {"below", "first", "inside", "last", "above", "most"}
Init == /\ mb \in Places /\ cpu \in Places /\ cores \in Places
        /\ range \in {"default", "narrow", "wide"} /\ fresh \in {0, 1}
Spec == Init /\ [][UNCHANGED vars]_vars
Least(r, x) == CASE r = "default" -> 1 [] r = "narrow" -> 3 [] r = "wide" -> 1
Most(r, x) ==
    CASE r = "default" -> (CASE x = "mb" -> 511 [] x = "cpu" -> 32 [] x = "cores" -> 8)
      [] r = "narrow" -> (CASE x = "mb" -> 100 [] x = "cpu" -> 7 [] x = "cores" -> 5)
      [] r = "wide" -> (CASE x = "mb" -> 1000000 [] x = "cpu" -> 200 [] x = "cores" -> 100)
Max(x) == IF x = "mb" THEN 16777216 ELSE 256
Value(p, r, x) ==
    CASE p = "below" -> IF Least(r, x) > 1 THEN Least(r, x) - 1 ELSE 1
      [] p = "first" -> Least(r, x)
      [] p = "inside" -> (Least(r, x) + Most(r, x)) \div 2
      [] p = "last" -> Most(r, x)
      [] p = "above" -> Most(r, x) + 1
      [] p = "most" -> Max(x)
In(p, r, x) == Value(p, r, x) >= Least(r, x) /\ Value(p, r, x) <= Most(r, x)
Allowed == In(mb, range, "mb") /\ In(cpu, range, "cpu") /\ In(cores, range, "cores")
Range(x) == <<Least(range, x), Most(range, x) + 1>>
EmitCase == PrintT("CASE " \o ToJson([mb |-> Value(mb, range, "mb"), cpu |-> Value(cpu, range, "cpu"),
    cores |-> Value(cores, range, "cores"), range |-> range, fresh |-> fresh, allowed |-> IF Allowed THEN 1 ELSE 0,
    ranges |-> <<Range("mb"), Range("cpu"), Range("cores")>>]))
=============================================================================
