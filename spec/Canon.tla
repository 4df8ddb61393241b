------------------------------- MODULE Canon --------------------------------
(* N01. The canonical encoding of sequences of byte strings, as documented:  *)
(* width | count | len width-coded blocksize | blocksize | len pad | pad |   *)
(* len item | item ... | padding. Strings are sequences of numbers 0..255.   *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Num(_, _), Val(_), Join(_), Fill(_, _, _), Items(_, _, _)
Num(n, s) == IF s = 0 THEN <<>> ELSE Append(Num(n \div 256, s - 1), n % 256)
\* numbers beyond Huge need not be told apart: no string here is as long
Huge == 1000000
Val(b) == IF b = <<>> THEN 0
          ELSE LET v == Val(SubSeq(b, 1, Len(b) - 1)) * 256 + b[Len(b)]
               IN IF v > Huge THEN Huge ELSE v
Join(items) == IF items = <<>> THEN <<>> ELSE Head(items) \o Join(Tail(items))
Fill(d, b, p) == IF Len(d) % b = 0 THEN d ELSE Fill(Append(d, p), b, p)
Coded(i, s) == Num(Len(i), s) \o i
Pack(items, b, p, s) ==
    LET all == <<Num(b, s), <<p>>>> \o items
        coded == [k \in 1..Len(all) |-> Coded(all[k], s)]
    IN Fill(<<s>> \o Num(Len(all), s) \o Join(coded), b, p)
\* the documented reading: [ok, items, rest]
Bad == [ok |-> FALSE, items |-> <<>>, rest |-> <<>>]
Items(d, n, s) ==
    IF n = 0 THEN [ok |-> TRUE, items |-> <<>>, rest |-> d]
    ELSE IF Len(d) < s THEN Bad
    ELSE LET size == Val(SubSeq(d, 1, s)) IN
         IF Len(d) < s + size THEN Bad
         ELSE LET more == Items(SubSeq(d, s + size + 1, Len(d)), n - 1, s) IN
              IF ~more.ok THEN Bad
              ELSE [ok |-> TRUE, items |-> <<SubSeq(d, s + 1, s + size)>> \o more.items, rest |-> more.rest]
Unpack(d) ==
    IF d = <<>> THEN Bad
    ELSE LET s == d[1] IN
    IF Len(d) < 1 + s THEN Bad
    ELSE LET n == Val(SubSeq(d, 2, 1 + s)) IN
    IF n < 2 \/ n * s > Len(d) THEN Bad
    ELSE LET got == Items(SubSeq(d, 2 + s, Len(d)), n, s) IN
    IF ~got.ok THEN Bad
    ELSE LET b == Val(got.items[1])
             p == got.items[2] IN
    IF b = 0 \/ Len(p) # 1 THEN Bad
    ELSE IF Len(d) % b # 0 THEN Bad
    ELSE IF \E i \in DOMAIN got.rest : got.rest[i] # p[1] THEN Bad
    ELSE [ok |-> TRUE, items |-> SubSeq(got.items, 3, n), rest |-> <<>>]
=============================================================================
