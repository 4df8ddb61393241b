----------------------------- MODULE CanonBytes -----------------------------
(* N01. Every short byte string over a few values: what unpacking must do.   *)
EXTENDS Canon, Json, TLC
CONSTANTS Bytes, MaxLen
VARIABLE data
Init == data = <<>>
Next == Len(data) < MaxLen /\ \E v \in Bytes : data' = Append(data, v)
Spec == Init /\ [][Next]_data
U == Unpack(data)
\* what is accepted is the packing of what it gives, up to whole blocks of padding
EmitCase == PrintT("CASE " \o ToJson([data |-> data, ok |-> IF U.ok THEN 1 ELSE 0, items |-> U.items]))
=============================================================================
