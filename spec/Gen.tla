--------------------------------- MODULE Gen --------------------------------
(* N06. Generators over sources, sequences and numbers, driven one demand at *)
(* a time. Items are named: <<source, index>>, <<first, last>> of a piece,   *)
(* or numbers. `taken` is how many items each source has given up.           *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS MaxSrc, MaxLen, MaxSize, Demands
VARIABLES op, src, par, taken, k, done, act
vars == <<op, src, par, taken, k, done, act>>
view == <<op, src, par, taken, k, done>>
Text == ToJson([op |-> op, src |-> src, par |-> par, taken |-> taken, k |-> k, done |-> done])
Act(what, res, item) == [op |-> what, res |-> res, item |-> item]

\* a source gives up `len` items, then ends, or fails if `fail`
Source == [len : 0..MaxLen, fail : {0, 1}]
Tuples(n) == UNION {[1..m -> Source] : m \in 0..n}
NoPar == [a |-> 0, b |-> 0, c |-> 0]
InitSources == /\ \/ op \in {"collate", "zip"} /\ src \in Tuples(MaxSrc)
                  \/ op \in {"unpack", "cycle"} /\ src \in Tuples(1) /\ Len(src) = 1
               /\ par = NoPar
\* a: length, b: size, c: number of blocks (-1: not given)
InitPieces == /\ op \in {"batch", "resize"} /\ src = <<>>
              /\ par \in [a : 0..(2 * MaxSize + 1), b : 0..MaxSize + 1, c : -1..3]
              /\ op = "batch" => par.b > 0 /\ par.c = -1
\* a, b, c: start, stop, step; or start, and the first number that does not fit
InitNumbers == /\ src = <<>>
               /\ \/ op = "count" /\ par \in [a : {-2, 0, 1, 255}, b : {0}, c : {0}]
                  \/ op = "bytes_count" /\ par \in [a : {-1, 0, 1, 253, 254, 255, 256}, b : {256}, c : {0}]
                  \/ op = "range" /\ par \in [a : -1..3, b : -1..3, c : {-2, -1, 0, 1, 2}]
                  \/ op = "bytes_range" /\ par \in [a : {-1, 0, 2, 254}, b : {-2, 0, 3, 255, 257}, c : {-1, 0, 1, 2}]
InitQueue == op = "popleft" /\ src = <<>> /\ par \in [a : 0..MaxLen, b : {0}, c : {0}]
Init == /\ InitSources \/ InitPieces \/ InitNumbers \/ InitQueue
        /\ taken = [i \in 1..Len(src) |-> 0] /\ k = 0 /\ done = 0 /\ act = Act("init", "", <<>>)

Item(x) == act' = Act("next", "item", x)
Stop(res) == done' = 1 /\ act' = Act("next", res, <<>>)
More == UNCHANGED done
Ended(s) == IF s.fail = 1 THEN "error" ELSE "end"

Collate ==
    LET left == {i \in 1..Len(src) : taken[i] < src[i].len \/ src[i].fail = 1} IN
    IF left = {} THEN Stop("end") /\ UNCHANGED taken
    ELSE LET i == CHOOSE x \in left : \A y \in left : x <= y IN
         IF taken[i] < src[i].len
         THEN /\ taken' = [taken EXCEPT ![i] = @ + 1] /\ Item(<<i, taken[i] + 1>>) /\ More
         ELSE Stop("error") /\ UNCHANGED taken
Cycle ==
    IF taken[1] < src[1].len THEN taken' = [taken EXCEPT ![1] = @ + 1] /\ Item(<<1, taken[1] + 1>>) /\ More
    ELSE /\ UNCHANGED taken
         /\ IF src[1].fail = 1 THEN Stop("error")
            ELSE IF src[1].len = 0 THEN Stop("end")
            ELSE Item(<<1, (k % src[1].len) + 1>>) /\ More
Zip ==
    LET out == {i \in 1..Len(src) : taken[i] = src[i].len} IN
    IF Len(src) = 0 THEN Stop("end") /\ UNCHANGED taken
    ELSE IF out = {} THEN /\ taken' = [i \in 1..Len(src) |-> taken[i] + 1] /\ More
                          /\ Item([i \in 1..Len(src) |-> <<i, taken[i] + 1>>])
    ELSE LET j == CHOOSE x \in out : \A y \in out : x <= y IN
         /\ taken' = [i \in 1..Len(src) |-> IF i < j THEN taken[i] + 1 ELSE taken[i]]
         /\ Stop(Ended(src[j]))
Min(x, y) == IF x < y THEN x ELSE y
Pieces ==
    /\ UNCHANGED taken
    /\ IF par.b < 1 \/ par.c = 0 THEN Stop("refused")
       ELSE IF k * par.b >= par.a \/ (par.c > 0 /\ k >= par.c) THEN Stop("end")
       ELSE Item(<<k * par.b + 1, Min((k + 1) * par.b, par.a)>>) /\ More
Fits(n) == n >= 0 /\ n < 256
Numbers ==
    LET n == IF op \in {"range", "bytes_range"} THEN par.a + k * par.c ELSE par.a + k IN
    /\ UNCHANGED taken
    /\ IF op \in {"range", "bytes_range"} /\ par.c = 0 THEN Stop("refused")
       ELSE IF op \in {"range", "bytes_range"} /\ (IF par.c > 0 THEN n >= par.b ELSE n <= par.b) THEN Stop("end")
       ELSE IF op \in {"bytes_count", "bytes_range"} /\ ~Fits(n) THEN Stop("refused")
       ELSE Item(<<n>>) /\ More
\* the queue has par.a items more than were ever taken
Queue == /\ UNCHANGED taken
         /\ IF k >= par.a THEN Stop("end") ELSE Item(<<k + 1>>) /\ More

Demand ==
    /\ k < Demands
    /\ UNCHANGED <<op, src, par>>
    /\ k' = k + 1
    /\ IF done = 1 THEN act' = Act("next", "end", <<>>) /\ UNCHANGED <<taken, done>>
       ELSE CASE op \in {"collate", "unpack"} -> Collate
              [] op = "cycle" -> Cycle
              [] op = "zip" -> Zip
              [] op \in {"batch", "resize"} -> Pieces
              [] op = "popleft" -> Queue
              [] OTHER -> Numbers
Close == done = 0 /\ done' = 1 /\ act' = Act("close", "", <<>>) /\ UNCHANGED <<op, src, par, taken, k>>
Push == /\ op = "popleft" /\ done = 0 /\ par.a < MaxLen + 2
        /\ par' = [par EXCEPT !.a = @ + 1] /\ act' = Act("push", "", <<>>) /\ UNCHANGED <<op, src, taken, k, done>>
Next == Demand \/ Close \/ Push
Spec == Init /\ [][Next]_vars
NeverPast == \A i \in 1..Len(src) : taken[i] <= src[i].len /\ taken[i] <= k
Emit == PrintT("EDGE " \o ToJson(<<Text, act', Text'>>))
EmitInit == act.op = "init" => PrintT("INIT " \o Text)
=============================================================================
