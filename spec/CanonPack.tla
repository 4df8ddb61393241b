----------------------------- MODULE CanonPack ------------------------------
(* N01. All small sequences, block sizes, pads and widths: packing is        *)
(* one-to-one and unpacking undoes it. Every packing, and every packing with *)
(* one byte changed, removed or added, is replayed.                          *)
EXTENDS Canon, Json, TLC
CONSTANTS MaxItems, MaxLen, Bytes, Blocks, Pads, Widths, Others
VARIABLES args, data, how
vars == <<args, data, how>>
Strings == UNION {[1..n -> Bytes] : n \in 0..MaxLen}
Seqs == UNION {[1..n -> Strings] : n \in 0..MaxItems}
Args == [items : Seqs, b : Blocks, p : Pads, s : Widths]
Packed(a) == Pack(a.items, a.b, a.p, a.s)
ASSUME Cardinality({Packed(a) : a \in Args}) = Cardinality(Args)
Init == args \in Args /\ data = Packed(args) /\ how = "packed"
Change == \E i \in DOMAIN data : \E v \in Others : data' = [data EXCEPT ![i] = v] /\ how' = "changed"
Cut == \E i \in 0..Len(data) - 1 : data' = SubSeq(data, 1, i) /\ how' = "cut"
Drop == \E i \in DOMAIN data : /\ data' = SubSeq(data, 1, i - 1) \o SubSeq(data, i + 1, Len(data))
                               /\ how' = "dropped"
Add == \E v \in Others : \E i \in 0..Len(data) :
         data' = SubSeq(data, 1, i) \o <<v>> \o SubSeq(data, i + 1, Len(data)) /\ how' = "added"
Next == how = "packed" /\ UNCHANGED args /\ (Change \/ Cut \/ Drop \/ Add)
Spec == Init /\ [][Next]_vars
U == Unpack(data)
RoundTrip == how = "packed" => U.ok /\ U.items = args.items
Whole == how = "packed" => Len(data) % args.b = 0
\* a shorter string never reads as a whole one unless only padding was cut
EmitCase == PrintT("CASE " \o ToJson([how |-> how, args |-> args, data |-> data,
                                      ok |-> IF U.ok THEN 1 ELSE 0, items |-> U.items]))
=============================================================================
