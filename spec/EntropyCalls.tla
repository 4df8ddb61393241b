---------------------------- MODULE EntropyCalls ----------------------------
(* R01. Every short history of requests and of entropy given with them. The  *)
(* value of the last request is named by the whole history: histories that   *)
(* begin from one state, differing in any call or input, give other values.  *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Calls, Inputs, Depth
VARIABLES hist
Init == hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E c \in Calls, x \in Inputs : hist' = Append(hist, <<c, x>>)
Spec == Init /\ [][Next]_hist
EmitCase == hist = <<>> \/ PrintT("CASE " \o ToJson(hist))
=============================================================================
