----------------------------- MODULE StreamEnc ------------------------------
(* S01, S03. An encrypting stream. Block and Inner are those of the cipher. *)
(* `most` is the number of packets the data supplied so far determines; a   *)
(* reader gets no more than that, and all packets by the end of finalizing. *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Block, Inner, Sizes, MaxTotal, Ops
VARIABLES total, phase, act
view == <<total, phase>>
Act(op, n, res, most) == [op |-> op, n |-> n, res |-> res, most |-> most]
Whole(t) == (Inner + t) \div Block
All(t) == Whole(t) + 1
Init == total = 0 /\ phase = "open" /\ act = Act("init", 0, "", 0)
Buffer(n) ==
    /\ UNCHANGED phase
    /\ IF phase = "open"
       THEN total + n <= MaxTotal /\ total' = total + n /\ act' = Act("buffer", n, "ok", Whole(total'))
       ELSE UNCHANGED total /\ act' = Act("buffer", n, "closed", All(total))
Read == /\ phase = "open" /\ UNCHANGED <<total, phase>>
        /\ act' = Act("read", 0, "some", Whole(total))
\* a reader that stops after the first packet
Take == /\ phase = "open" /\ UNCHANGED <<total, phase>>
        /\ act' = Act("take", 0, "some", Whole(total))
\* one packet is taken from the finalizing generator
Begin == /\ phase = "open" /\ phase' = "part" /\ UNCHANGED total
         /\ act' = Act("begin", 0, "some", All(total))
Rest == /\ phase = "part" /\ phase' = "done" /\ UNCHANGED total
        /\ act' = Act("rest", 0, "all", All(total))
Finish == /\ UNCHANGED total
          /\ IF phase = "open" THEN phase' = "done" /\ act' = Act("finish", 0, "all", All(total))
             ELSE UNCHANGED phase /\ act' = Act("finish", 0, "closed", All(total))
Tag == /\ UNCHANGED <<total, phase>>
       /\ act' = Act("tag", 0, IF phase = "done" THEN "ok" ELSE "refused", 0)
Next == \/ \E n \in Sizes : Buffer(n)
        \/ Read \/ Take \/ Finish
        \/ "part" \in Ops /\ (Begin \/ Rest)
        \/ "tag" \in Ops /\ Tag
Spec == Init /\ [][Next]_<<view, act>>
\* the last packet is never determined before finalizing
Ends == Whole(total) < All(total)
OneWay == [][phase # "open" => phase' # "open" /\ total' = total]_<<view, act>>
Text == ToJson([total |-> total, phase |-> phase])
Emit == PrintT("EDGE " \o ToJson(<<Text, act', ToJson([total |-> total', phase |-> phase'])>>))
EmitInit == act.op = "init" => PrintT("INIT " \o Text)
=============================================================================
