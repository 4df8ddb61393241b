----------------------------- MODULE StreamDec ------------------------------
(* S01-S03. A decrypting stream that is to receive the packets 1..Packets   *)
(* of one encrypted stream. `fed` packets were accepted; `sound` is 1 while *)
(* they are exactly the first of the stream. A packet with a valid          *)
(* identifier the stream was not sent can only be made by a holder of the   *)
(* key ("forge"); it spoils the tag.                                        *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Packets, Kinds, Ops
VARIABLES fed, phase, sound, act
view == <<fed, phase, sound>>
Act(op, kind, n, at, res) == [op |-> op, kind |-> kind, n |-> n, at |-> at, res |-> res]
Init == fed = 0 /\ phase = "open" /\ sound = 1 /\ act = Act("init", "", 0, 0, "")
\* a call supplying the next n packets
Feed(n) ==
    /\ n <= Packets - fed /\ UNCHANGED <<phase, sound>>
    /\ IF phase = "open" THEN sound = 1 /\ fed' = fed + n /\ act' = Act("feed", "", n, 0, "ok")
       ELSE UNCHANGED fed /\ act' = Act("feed", "", n, 0, "closed")
\* a call supplying n packets of which the one at position `at` is not the
\* next one of the stream; those before it are accepted, those behind not
Bad(kind, n, at) ==
    /\ phase = "open" /\ at <= n /\ n <= Packets - fed /\ sound = 1
    /\ kind \in {"repeat"} => fed + at > 1
    /\ kind \in {"skip"} => fed + at < Packets
    /\ fed' = fed + at - 1 /\ UNCHANGED <<phase, sound>>
    /\ act' = Act("bad", kind, n, at, "refused")
Ragged(kind) ==
    /\ phase = "open" /\ UNCHANGED view /\ act' = Act("ragged", kind, 0, 0, "size")
Forge(kind) ==
    /\ phase = "open" /\ fed < Packets /\ fed' = fed + 1 /\ sound' = 0
    /\ UNCHANGED phase /\ act' = Act("forge", kind, 0, 0, "ok")
Read == /\ phase = "open" /\ fed > 0 /\ UNCHANGED view
        /\ act' = Act("read", "", fed, sound, "some")
\* a reader that stops after the first piece
Take == /\ phase = "open" /\ fed > 0 /\ UNCHANGED view
        /\ act' = Act("take", "", fed, sound, "some")
Begin == /\ phase = "open" /\ fed > 0 /\ phase' = "part" /\ UNCHANGED <<fed, sound>>
         /\ act' = Act("begin", "", fed, sound, "some")
Rest == /\ phase = "part" /\ phase' = "done" /\ UNCHANGED <<fed, sound>>
        /\ act' = Act("rest", "", fed, sound, "all")
Finish == /\ UNCHANGED <<fed, sound>>
          /\ IF phase = "open" THEN fed > 0 /\ phase' = "done" /\ act' = Act("finish", "", fed, sound, "all")
             ELSE UNCHANGED phase /\ act' = Act("finish", "", fed, sound, "closed")
\* checking the stream's tag, or another one
Check(right) ==
    /\ UNCHANGED view
    /\ act' = Act("check", "", right, 0,
                  IF phase = "open" THEN "refused"
                  ELSE IF right = 1 /\ sound = 1 /\ fed = Packets THEN "valid" ELSE "invalid")
Result == UNCHANGED view /\ act' = Act("result", "", 0, 0, IF phase = "open" THEN "refused" ELSE "ok")
Next == \/ \E n \in 1..Packets : Feed(n)
        \/ Read \/ Take \/ Finish
        \/ "bad" \in Ops /\ \E k \in Kinds, n \in 1..Packets, at \in 1..Packets : Bad(k, n, at)
        \/ "bad" \in Ops /\ \E k \in {"empty", "short", "long", "byte"} : Ragged(k)
        \/ "forge" \in Ops /\ \E k \in {"alter", "skip", "repeat"} : Forge(k)
        \/ "part" \in Ops /\ (Begin \/ Rest)
        \/ "tag" \in Ops /\ (\E r \in {0, 1} : Check(r) \/ Result)
Spec == Init /\ [][Next]_<<view, act>>
OneWay == [][phase # "open" => phase' # "open" /\ fed' = fed]_<<view, act>>
Verdict == [][act'.res = "valid" => phase # "open" /\ fed = Packets /\ sound = 1]_<<view, act>>
Text == ToJson([fed |-> fed, phase |-> phase, sound |-> sound])
Emit == PrintT("EDGE " \o ToJson(<<Text, act', ToJson([fed |-> fed', phase |-> phase', sound |-> sound'])>>))
EmitInit == act.op = "init" => PrintT("INIT " \o Text)
=============================================================================
