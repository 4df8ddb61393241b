---------------------------- MODULE CipherConfig ----------------------------
(* E06. Ciphers of other settings than the two that are shipped. A case is a *)
(* setting that differs from the shipped one in at most Changes respects,    *)
(* with whether it may be used and how long its ciphertexts are.             *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Changes
VARIABLES kind, conf, done
Base == [Slick256 |->
            [bs |-> 32, pad |-> 0, ts |-> 4, siv |-> 8, mac |-> 24, id |-> 16, low |-> 16,
             salt |-> 8, iv |-> 8, name |-> 0, cid |-> 0, epoch |-> 0],
         Chunky2048 |->
            [bs |-> 256, pad |-> 0, ts |-> 4, siv |-> 16, mac |-> 32, id |-> 24, low |-> 16,
             salt |-> 8, iv |-> 8, name |-> 0, cid |-> 0, epoch |-> 0]]
Values == [Slick256 |->
            [bs |-> {28, 29, 48, 64, 128}, pad |-> {1, 7, 8, 15, 16}, ts |-> {5, 8}, siv |-> {11, 12, 27, 28},
             mac |-> {16, 32}, id |-> {24, 32}, low |-> {33}, salt |-> {5, 16}, iv |-> {7, 16},
             name |-> {1}, cid |-> {1}, epoch |-> {1}],
           Chunky2048 |->
            [bs |-> {0, 36, 38, 255, 258, 320, 338}, pad |-> {1, 2, 5}, ts |-> {5, 8}, siv |-> {15, 18, 28, 60, 124},
             mac |-> {16, 64}, id |-> {16, 32}, low |-> {33}, salt |-> {5, 16}, iv |-> {7, 16},
             name |-> {1}, cid |-> {1}, epoch |-> {1}]]
Rate == 168
\* what the permutation is made for; nothing is said about other sizes
Sizes == 1..32 \cup {48, 64, 128, 192, 256}
Inner == conf.ts + conf.siv
Frame == conf.bs * (conf.pad + 1)
Sentinel == (Frame + 255) \div 256
Usable ==
    /\ conf.bs > 0 /\ conf.low <= 32
    /\ (conf.bs - Inner - Sentinel) % conf.bs >= 16
    /\ kind = "Slick256" => Rate >= 2 * conf.bs + 32
    /\ kind = "Chunky2048" =>
        /\ conf.bs % 2 = 0 /\ Inner % 2 = 0 /\ conf.bs <= 2 * Rate /\ 2 * Inner <= Rate /\ Inner < conf.bs
\* a message takes the fewest frames that hold it, its header and the sentinel
Padded(n) == ((Inner + n + Sentinel + Frame - 1) \div Frame) * Frame
Length(n) == conf.mac + conf.salt + conf.iv + Padded(n)
Edges == {n \in {0, 1} \cup {k * Frame - Inner - d : k \in 1..2, d \in -1..(Sentinel + 1)} : n >= 0}
Init == kind \in DOMAIN Base /\ conf = Base[kind] /\ done = {}
Change(f, v) ==
    /\ f \notin done /\ Cardinality(done) < Changes /\ UNCHANGED kind
    /\ done' = done \cup {f} /\ conf' = [conf EXCEPT ![f] = v]
Next == \E f \in DOMAIN conf : \E v \in Values[kind][f] : Change(f, v)
Spec == Init /\ [][Next]_<<kind, conf, done>>
\* a padding can always be told from what it follows
Readable == Usable => \A n \in Edges : LET p == Padded(n) - Inner - n IN
    p >= Sentinel /\ p < Sentinel + Frame
Known == (IF kind = "Slick256" THEN conf.bs ELSE Inner) \in Sizes
Emit == Known => PrintT("CASE " \o ToJson([kind |-> kind, conf |-> conf, usable |-> Usable, done |-> done,
    lengths |-> IF Usable THEN {<<n, Length(n)>> : n \in Edges} ELSE {}]))
=============================================================================
