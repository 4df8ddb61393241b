-------------------------------- MODULE Kdf ---------------------------------
(* K05. Key derivation objects as the sequences they absorbed. An output is  *)
(* named by the object's start, its history and the call: the replay demands *)
(* that outputs with one name are equal and outputs with two are unrelated.  *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Starts, Updates, Objects, Depth, Outputs
VARIABLES start, hist, act
view == <<start, hist>>
\* hist[i] is <<"free">> or <<"live", u1, u2, ...>>; updates are numbered
Free == <<"free">>
Live == <<"live">>
O == 1..Objects
Act(op, i, x, res) == [op |-> op, i |-> i, x |-> x, res |-> res]
Init == /\ start \in 1..Starts
        /\ hist = [i \in O |-> IF i = 1 THEN Live ELSE Free] /\ act = Act("init", 1, 0, "")
Used(i) == hist[i] # Free
\* update 0 stands for refused calls: no data or data of a wrong type
Update(i, u) ==
    /\ Used(i)
    /\ IF u = 0 THEN UNCHANGED view /\ act' = Act("update", i, u, "refused")
       ELSE /\ Len(hist[i]) <= Depth /\ hist' = [hist EXCEPT ![i] = Append(@, u)]
            /\ act' = Act("update", i, u, "ok") /\ UNCHANGED start
Copy(i, j) ==
    /\ Used(i) /\ ~Used(j) /\ (j > 1 => Used(j - 1))
    /\ hist' = [hist EXCEPT ![j] = hist[i]] /\ act' = Act("copy", i, j, "ok") /\ UNCHANGED start
\* o is the number of a call with its arguments
Output(i, o) == Used(i) /\ UNCHANGED view /\ act' = Act("output", i, o, "ok")
Next == \E i \in O : \/ \E u \in 0..Updates : Update(i, u)
                     \/ \E j \in O : Copy(i, j)
                     \/ \E o \in 1..Outputs : Output(i, o)
Spec == Init /\ [][Next]_<<view, act>>
Apart == [][\A i, j \in O : i # j /\ hist'[i] # hist[i] => hist'[j] = hist[j]]_<<view, act>>
Quiet == [][act'.op = "output" => hist' = hist]_<<view, act>>
Rec(a, b) == ToJson([start |-> a, hist |-> b])
Text == Rec(start, hist)
Emit == PrintT("EDGE " \o ToJson(<<Text, act', Rec(start', hist')>>))
EmitInit == act.op = "init" => PrintT("INIT " \o Text)
=============================================================================
