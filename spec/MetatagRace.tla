---------------------------- MODULE MetatagRace ----------------------------
(* Tasks asking at once for sub-databases of one database by name.          *)
(* Protocol: look whether the name is attached; if not, build an object     *)
(* (other tasks run meanwhile); attach it unless another one was attached.  *)
(* Contract: a name always leads to one object, so nothing written through  *)
(* the name is lost.                                                        *)
EXTENDS Naturals, FiniteSets
CONSTANTS Tasks, Names
VARIABLES pc, want, attached, got
vars == <<pc, want, attached, got>>
Init == /\ pc = [t \in Tasks |-> "look"]
        /\ want \in [Tasks -> Names]
        /\ attached = [n \in Names |-> 0]
        /\ got = [t \in Tasks |-> 0]
Look(t) == /\ pc[t] = "look"
           /\ IF attached[want[t]] # 0
              THEN pc' = [pc EXCEPT ![t] = "done"] /\ got' = [got EXCEPT ![t] = attached[want[t]]]
              ELSE pc' = [pc EXCEPT ![t] = "built"] /\ UNCHANGED got
           /\ UNCHANGED <<want, attached>>
Attach(t) == /\ pc[t] = "built"
             /\ attached' = [attached EXCEPT ![want[t]] = IF @ = 0 THEN t ELSE @]
             /\ got' = [got EXCEPT ![t] = attached'[want[t]]]
             /\ pc' = [pc EXCEPT ![t] = "done"]
             /\ UNCHANGED want
Next == \E t \in Tasks : Look(t) \/ Attach(t)
Spec == Init /\ [][Next]_vars
OneObject == \A t, u \in Tasks :
    (pc[t] = "done" /\ pc[u] = "done" /\ want[t] = want[u]) => got[t] = got[u]
Separate == \A t, u \in Tasks :
    (pc[t] = "done" /\ pc[u] = "done" /\ want[t] # want[u]) => got[t] # got[u]
Stable == [][\A n \in Names : attached[n] # 0 => attached'[n] = attached[n]]_vars
=============================================================================
