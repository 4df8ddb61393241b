-------------------------------- MODULE Guid --------------------------------
(* I02. Callers making identifiers with one generator, while the clock may   *)
(* stand still or advance between any two actions; random tokens are assumed *)
(* to be all alike. Reading the clock and taking a number are one section.   *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Callers, Calls, Wrap, Times, Locked
VARIABLES clock, tick, lock, pc, stamp, made, left
vars == <<clock, tick, lock, pc, stamp, made, left>>
Init == /\ clock = 0 /\ tick = 0 /\ lock = 0 /\ made = <<>>
        /\ pc = [c \in Callers |-> "out"] /\ stamp = [c \in Callers |-> 0]
        /\ left = [c \in Callers |-> Calls]
Advance == /\ clock < Times /\ clock' = clock + 1
           /\ UNCHANGED <<tick, lock, pc, stamp, made, left>>
Enter(c) == /\ pc[c] = "out" /\ left[c] > 0 /\ (Locked = 1 => lock = 0)
            /\ lock' = (IF Locked = 1 THEN c ELSE 0) /\ pc' = [pc EXCEPT ![c] = "stamp"]
            /\ left' = [left EXCEPT ![c] = @ - 1] /\ UNCHANGED <<clock, tick, stamp, made>>
Stamp(c) == /\ pc[c] = "stamp" /\ stamp' = [stamp EXCEPT ![c] = clock]
            /\ pc' = [pc EXCEPT ![c] = "tick"] /\ UNCHANGED <<clock, tick, lock, made, left>>
Tick(c) == /\ pc[c] = "tick" /\ tick' = (tick + 1) % Wrap
           /\ pc' = [pc EXCEPT ![c] = "read"] /\ UNCHANGED <<clock, lock, stamp, made, left>>
Read(c) == /\ pc[c] = "read" /\ made' = Append(made, <<stamp[c], tick>>)
           /\ lock' = 0 /\ pc' = [pc EXCEPT ![c] = "out"]
           /\ UNCHANGED <<clock, tick, stamp, left>>
Next == Advance \/ \E c \in Callers : Enter(c) \/ Stamp(c) \/ Tick(c) \/ Read(c)
Spec == Init /\ [][Next]_vars
At(t) == {i \in DOMAIN made : made[i][1] = t}
Unique == (\A t \in 0..Times : Cardinality(At(t)) <= Wrap)
          => \A i, j \in DOMAIN made : i # j => made[i] # made[j]
=============================================================================
