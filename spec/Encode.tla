------------------------------- MODULE Encode -------------------------------
(* N02. The documented encodings: digits of a number to a base, 6-bit groups *)
(* of a byte string without padding, base-38 digits of its number, one word  *)
(* per byte. Strings are sequences of numbers.                               *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Mode, Max, Bases, Bytes, MaxLen
VARIABLES n, b, data
vars == <<n, b, data>>
RECURSIVE Dig(_, _), Val(_, _), Groups(_)
Dig(k, base) == IF k = 0 THEN <<>> ELSE Append(Dig(k \div base, base), k % base)
Digits(k, base) == IF k = 0 THEN <<0>> ELSE Dig(k, base)
Val(d, base) == IF d = <<>> THEN 0 ELSE Val(SubSeq(d, 1, Len(d) - 1), base) * base + d[Len(d)]
\* the 6-bit groups of a string, the last one filled with zero bits
Groups(d) ==
    IF Len(d) = 0 THEN <<>>
    ELSE IF Len(d) = 1 THEN <<d[1] \div 4, (d[1] % 4) * 16>>
    ELSE IF Len(d) = 2 THEN <<d[1] \div 4, (d[1] % 4) * 16 + d[2] \div 16, (d[2] % 16) * 4>>
    ELSE <<d[1] \div 4, (d[1] % 4) * 16 + d[2] \div 16, (d[2] % 16) * 4 + d[3] \div 64, d[3] % 64>>
         \o Groups(SubSeq(d, 4, Len(d)))
RECURSIVE Ungroup(_)
Ungroup(g) ==
    IF Len(g) < 2 THEN <<>>
    ELSE IF Len(g) = 2 THEN <<g[1] * 4 + g[2] \div 16>>
    ELSE IF Len(g) = 3 THEN <<g[1] * 4 + g[2] \div 16, (g[2] % 16) * 16 + g[3] \div 4>>
    ELSE <<g[1] * 4 + g[2] \div 16, (g[2] % 16) * 16 + g[3] \div 4, (g[3] % 4) * 64 + g[4]>>
         \o Ungroup(SubSeq(g, 5, Len(g)))
Init == IF Mode = "numbers" THEN n = 0 /\ b \in Bases /\ data = <<>>
        ELSE n = 0 /\ b = 0 /\ data = <<>>
Next == IF Mode = "numbers" THEN n < Max /\ n' = n + 1 /\ UNCHANGED <<b, data>>
        ELSE Len(data) < MaxLen /\ (\E v \in Bytes : data' = Append(data, v)) /\ UNCHANGED <<n, b>>
Spec == Init /\ [][Next]_vars
\* the value of up to three bytes fits TLC's integers
Small == Len(data) <= 3
RoundTrip == /\ Ungroup(Groups(data)) = data
             /\ Mode = "numbers" => Val(Digits(n, b), b) = n
EmitCase == IF Mode = "numbers"
            THEN PrintT("CASE " \o ToJson([op |-> "number", n |-> n, b |-> b, digits |-> Digits(n, b)]))
            ELSE PrintT("CASE " \o ToJson([op |-> "bytes", data |-> data, groups |-> Groups(data),
                   small |-> IF Small THEN 1 ELSE 0,
                   name |-> IF Small THEN Digits(Val(data, 256), 38) ELSE <<>>]))
=============================================================================
