---------------------------- MODULE DatabaseSim ----------------------------
(* Long random behaviours of Database over a larger tree, printed whole.    *)
EXTENDS Database
CONSTANT Length
VARIABLE hist
SimInit == Init /\ hist = <<>>
SimNext == Next /\ Len(hist) < Length
           /\ hist' = Append(hist, <<act', StateText(cache', man', metas', file', disk', open')>>)
SimSpec == SimInit /\ [][SimNext]_<<vars, hist>>
Report == (Len(hist) = Length) => PrintT("PATH " \o ToJson(hist))
=============================================================================
