------------------------------- MODULE FileIO -------------------------------
(* N02. A file read, written and appended to through the byte interface.     *)
(* Content is the sequence of the pieces it consists of.                     *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Pieces, Depth
VARIABLES content, act
view == content
None == <<0>>
Act(op, x, res) == [op |-> op, x |-> x, res |-> res]
Init == content = None /\ act = Act("init", 0, "")
Write(x) == content' = <<x>> /\ act' = Act("write", x, "ok")
App(x) == /\ content = None \/ Len(content) < Depth
          /\ content' = (IF content = None THEN <<x>> ELSE Append(content, x))
          /\ act' = Act("append", x, "ok")
\* x: the number of bytes asked for stands for all, none, some, more than there are
Read(x) == UNCHANGED content /\ act' = Act("read", x, IF content = None THEN "missing" ELSE "ok")
Next == (\E x \in 1..Pieces : Write(x) \/ App(x)) \/ \E x \in 0..4 : Read(x)
Spec == Init /\ [][Next]_<<content, act>>
Quiet == [][act'.op = "read" => content' = content]_<<content, act>>
Emit == PrintT("EDGE " \o ToJson(<<ToJson(content), act', ToJson(content')>>))
EmitInit == act.op = "init" => PrintT("INIT " \o ToJson(content))
=============================================================================
