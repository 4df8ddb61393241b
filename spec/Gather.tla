------------------------------- MODULE Gather -------------------------------
(* N05. Functions gathered together: each comes to a result or fails, in any *)
(* order of completion; what the caller is given depends on the former only. *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS N
VARIABLES out, order
vars == <<out, order>>
Fns == 1..Len(out)
Ran == {order[i] : i \in 1..Len(order)}
Init == out \in UNION {[1..m -> {"ok", "fail"}] : m \in 0..N} /\ order = <<>>
Next == \E i \in Fns \ Ran : order' = Append(order, i) /\ UNCHANGED out
Spec == Init /\ [][Next]_vars
Failed == \E i \in Fns : out[i] = "fail"
Case == [out |-> out, order |-> order, ret |-> IF Failed THEN "failed" ELSE "ok"]
Once == Len(order) = Cardinality(Ran)
EmitCase == Len(order) = Len(out) => PrintT("CASE " \o ToJson(Case))
=============================================================================
