------------------------------ MODULE Entropy -------------------------------
(* R01. Threads of processes that are forks of one another draw values from  *)
(* a sponge while system randomness and clocks stand still. A call makes a   *)
(* token, absorbs it, and draws from a copy of the sponge; other threads of  *)
(* the process may act in between. Named: tokens name thread and process.    *)
(* Kept: what is absorbed stays in the sponge.                               *)
EXTENDS Integers, Sequences
CONSTANTS Threads, Home, Calls, Inputs, Named, Kept
VARIABLES sponge, pc, token, copy, left, outs
vars == <<sponge, pc, token, copy, left, outs>>
\* Home[t]: the process of thread t
Space == {Home[t] : t \in Threads}
Init == /\ sponge = [s \in Space |-> <<>>] /\ pc = [t \in Threads |-> "out"]
        /\ token = [t \in Threads |-> <<>>] /\ copy = [t \in Threads |-> <<>>]
        /\ left = [t \in Threads |-> Calls] /\ outs = <<>>
Name(t) == CASE Named = "both" -> t
             [] Named = "thread" -> IF \E u \in Threads : Home[u] = Home[t] /\ u < t THEN 2 ELSE 1
             [] Named = "process" -> Home[t]
Make(t) == \E x \in Inputs :
    /\ pc[t] = "out" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
    /\ token' = [token EXCEPT ![t] = <<Name(t), x>>] /\ pc' = [pc EXCEPT ![t] = "made"]
    /\ UNCHANGED <<sponge, copy, outs>>
Absorb(t) ==
    /\ pc[t] = "made" /\ pc' = [pc EXCEPT ![t] = "absorbed"]
    /\ sponge' = IF Kept = 1 THEN [sponge EXCEPT ![Home[t]] = Append(@, token[t])] ELSE sponge
    /\ UNCHANGED <<token, copy, left, outs>>
Copy(t) ==
    /\ pc[t] = "absorbed" /\ pc' = [pc EXCEPT ![t] = "copied"]
    /\ copy' = [copy EXCEPT ![t] = sponge[Home[t]]] /\ UNCHANGED <<sponge, token, left, outs>>
Draw(t) ==
    /\ pc[t] = "copied" /\ pc' = [pc EXCEPT ![t] = "out"]
    /\ outs' = Append(outs, <<copy[t], token[t]>>) /\ UNCHANGED <<sponge, token, copy, left>>
Next == \E t \in Threads : Make(t) \/ Absorb(t) \/ Copy(t) \/ Draw(t)
Spec == Init /\ [][Next]_vars
Apart == \A i, j \in DOMAIN outs : i # j => outs[i] # outs[j]
=============================================================================
