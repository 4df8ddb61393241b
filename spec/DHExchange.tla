----------------------------- MODULE DHExchange -----------------------------
(* K01. One run of the two- or three-key exchange with an adversary who      *)
(* may replace any public key on its way by any key they know by then.       *)
(* A key is <<point, form>>: the curve has two byte forms of one point.      *)
(* Keys the parties derive are terms; a shared secret is the set of points.  *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
VARIABLES n, pc, known, idS, idC, ephC, ephS
vars == <<n, pc, known, idS, idC, ephC, ephS>>
\* as received: idS and ephS by the client, idC and ephC by the server
None == <<"none", 0>>
Own(p) == <<p, 0>>
Strangers == {Own("Att"), Own("OldC"), Own("OldS"), <<"Low", 0>>}
Forms(K) == K \cup {<<k[1], 1>> : k \in {j \in K : j[1] # "Low"}}
Init == /\ n \in {2, 3} /\ pc = "start"
        /\ known = Strangers \cup {Own("IdS"), Own("IdC")}
        /\ idS = None /\ idC = None /\ ephC = None /\ ephS = None
ClientSend == /\ pc = "start" /\ pc' = "sent" /\ known' = known \cup {Own("EphC")}
              /\ \E k \in Forms(known) : idS' = k
              /\ UNCHANGED <<n, idC, ephC, ephS>>
ServerReceive == /\ pc = "sent" /\ pc' = "replied" /\ known' = known \cup {Own("EphS")}
                 /\ \E k \in Forms(known) : ephC' = k
                 /\ \E k \in (IF n = 3 THEN Forms(known) ELSE {None}) : idC' = k
                 /\ UNCHANGED <<n, idS, ephS>>
ClientReceive == /\ pc = "replied" /\ pc' = "done" /\ UNCHANGED known
                 /\ \E k \in Forms(known) : ephS' = k
                 /\ UNCHANGED <<n, idS, idC, ephC>>
Next == ClientSend \/ ServerReceive \/ ClientReceive
Spec == Init /\ [][Next]_vars
DH(a, b) == {a[1], b[1]}
ClientKey ==
    IF n = 2
    THEN <<Own("EphC"), idS, ephS, DH(Own("EphC"), idS), DH(Own("EphC"), ephS)>>
    ELSE <<Own("IdC"), Own("EphC"), idS, ephS,
           DH(Own("EphC"), idS), DH(Own("IdC"), ephS), DH(Own("EphC"), ephS)>>
ServerKey ==
    IF n = 2
    THEN <<ephC, Own("IdS"), Own("EphS"), DH(Own("IdS"), ephC), DH(Own("EphS"), ephC)>>
    ELSE <<idC, ephC, Own("IdS"), Own("EphS"),
           DH(Own("IdS"), ephC), DH(Own("EphS"), idC), DH(Own("EphS"), ephC)>>
Low(k) == k[1] = "Low"
ClientFails == Low(idS) \/ Low(ephS)
ServerFails == Low(ephC) \/ (n = 3 /\ Low(idC))
Untouched == /\ idS = Own("IdS") /\ ephC = Own("EphC") /\ ephS = Own("EphS")
             /\ n = 3 => idC = Own("IdC")
Agree == ~ClientFails /\ ~ServerFails /\ ClientKey = ServerKey
Exactly == pc = "done" => (Agree <=> Untouched)
EmitCase == pc = "done" => PrintT("CASE " \o ToJson([n |-> n, idS |-> idS, idC |-> idC,
    ephC |-> ephC, ephS |-> ephS, agree |-> IF Agree THEN 1 ELSE 0]))
=============================================================================
