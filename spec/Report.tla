------------------------------- MODULE Report -------------------------------
(* Q01. Users report issues one after another. `kept[u]` are the reports     *)
(* whose secret keys user u's database keeps: the latest Most ones. The      *)
(* user may first decline, answer with what is no number, or reconsider.     *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Users, Reports, Most
VARIABLES made, kept, act
view == <<made, kept>>
Act(op, u, way, keeps) == [op |-> op, u |-> u, way |-> way, keeps |-> keeps]
Init == made = 0 /\ kept = [u \in Users |-> <<>>] /\ act = Act("init", 0, "", <<>>)
Ways == {"plain", "no number", "reconsidered", "no number, reconsidered", "below one"}
Last(s) == IF Len(s) > Most THEN SubSeq(s, Len(s) - Most + 1, Len(s)) ELSE s
Report(u, w) == LET now == Last(Append(kept[u], made + 1)) IN
    /\ made < Reports /\ made' = made + 1 /\ kept' = [kept EXCEPT ![u] = now]
    /\ act' = Act("report", u, w, now)
Decline(w) == UNCHANGED view /\ act' = Act("decline", 0, w, <<>>)
Look(u) == kept[u] # <<>> /\ UNCHANGED view /\ act' = Act("look", u, "", kept[u])
Next == \/ \E u \in Users, w \in Ways : Report(u, w)
        \/ \E w \in {"n", "", "no", "N", " x y"} : Decline(w)
        \/ \E u \in Users : Look(u)
Spec == Init /\ [][Next]_<<view, act>>
\* nobody's report takes another's key away, and the newest is always there
Kept == \A u \in Users : Len(kept[u]) <= Most
Newest == [][act'.op = "report" => kept'[act'.u][Len(kept'[act'.u])] = made']_<<view, act>>
Rec(m, k) == ToJson([made |-> m, kept |-> k])
Emit == PrintT("EDGE " \o ToJson(<<Rec(made, kept), act', Rec(made', kept')>>))
EmitInit == act.op = "init" => PrintT("INIT " \o Rec(made, kept))
=============================================================================
