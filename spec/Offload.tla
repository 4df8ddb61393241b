------------------------------- MODULE Offload ------------------------------
(* N05. The protocol by which a worker's result reaches its caller: the      *)
(* worker runs the function, writes the result in pieces into a pipe of      *)
(* limited size and ends; the caller polls, reads and then waits for the end *)
(* of the worker.                                                            *)
EXTENDS Integers
CONSTANTS Size, Pipe
VARIABLES works, wpc, sent, got, cpc, ret
vars == <<works, wpc, sent, got, cpc, ret>>
Init == /\ works \in BOOLEAN /\ wpc = "run" /\ sent = 0 /\ got = 0 /\ cpc = "alive" /\ ret = "none"
Alive == wpc # "dead"
\* worker
Run == wpc = "run" /\ wpc' = (IF works THEN "send" ELSE "dead") /\ UNCHANGED <<works, sent, got, cpc, ret>>
Send == /\ wpc = "send" /\ sent - got < Pipe /\ sent < Size
        /\ sent' = sent + 1 /\ UNCHANGED <<works, wpc, got, cpc, ret>>
End == wpc = "send" /\ sent = Size /\ wpc' = "dead" /\ UNCHANGED <<works, sent, got, cpc, ret>>
\* caller
PollAlive == /\ cpc = "alive" /\ cpc' = (IF Alive THEN "empty" ELSE "get") /\ UNCHANGED <<works, wpc, sent, got, ret>>
PollEmpty == /\ cpc = "empty" /\ cpc' = (IF sent = 0 THEN "alive" ELSE "get") /\ UNCHANGED <<works, wpc, sent, got, ret>>
Get == /\ cpc = "get"
       /\ IF sent = 0 THEN cpc' = "wait" /\ ret' = "failed" /\ UNCHANGED got
          ELSE IF got < Size THEN got < sent /\ got' = got + 1 /\ UNCHANGED <<cpc, ret>>
          ELSE cpc' = "wait" /\ ret' = "result" /\ UNCHANGED got
       /\ UNCHANGED <<works, wpc, sent>>
Wait == cpc = "wait" /\ ~Alive /\ cpc' = "done" /\ UNCHANGED <<works, wpc, sent, got, ret>>
Next == Run \/ Send \/ End \/ PollAlive \/ PollEmpty \/ Get \/ Wait
Spec == Init /\ [][Next]_vars /\ WF_vars(Run \/ Send \/ End) /\ WF_vars(PollAlive \/ PollEmpty \/ Get \/ Wait)
Right == cpc = "done" => ret = (IF works THEN "result" ELSE "failed")
Returns == <>(cpc = "done")
=============================================================================
