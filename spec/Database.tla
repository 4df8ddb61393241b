------------------------------ MODULE Database ------------------------------
(* The contract of (Async)Database: a tree of encrypted tag stores.           *)
(*                                                                          *)
(* A node is one database: the root "r" or a metatag below it. The session  *)
(* (one open object per node) has a cache of values and a list of known     *)
(* tags and metatags (the manifest); the directory has one file per saved   *)
(* tag and one manifest file per saved node.                                *)
(*                                                                          *)
(* A node that was never saved has no durable identity: when its session    *)
(* ends, the files written for it (and everything below it) can never be    *)
(* reached again. Those files are recorded in `act` as left behind.         *)
EXTENDS Naturals, FiniteSets, Sequences, Json, TLC

CONSTANTS Nodes,     \* subset of the tree below, closed under Parent
          Tags, Vals,
          Ops,       \* the operations explored
          Opens      \* preload options explored

Parent == [rm |-> "r", rn |-> "r", rmn |-> "rm", rmm |-> "rm"]
Name   == [rm |-> "m", rn |-> "n", rmn |-> "n", rmm |-> "m"]
Names  == {"m", "n"}
None   == 0

VARIABLES cache, man, metas,  \* the session
          file, disk,         \* the directory
          open,               \* is there a session?
          act                 \* the last call, its result, what it left behind

vars == <<cache, man, metas, file, disk, open, act>>
sess == <<cache, man, metas, open>>

RECURSIVE Below(_)
Below(n) == {n} \cup UNION {Below(k) : k \in {c \in Nodes \ {"r"} : Parent[c] = n}}
RECURSIVE Anc(_)
Anc(n) == IF n = "r" THEN {"r"} ELSE {n} \cup Anc(Parent[n])
Kids(n) == {c \in Nodes \ {"r"} : Parent[c] = n}

\* the nodes a listing of metatags reaches from n
RECURSIVE Reach(_, _)
Reach(n, m) == {n} \cup UNION {Reach(c, m) : c \in {k \in Kids(n) : Name[k] \in m[n]}}

Live == IF open THEN Reach("r", metas) ELSE {}

Absent == [ex |-> FALSE, tags |-> {}, metas |-> {}]
NoVals == [t \in Tags |-> None]

Act(op, n, t, v, o, res) ==
    [op |-> op, n |-> n, t |-> t, v |-> v, o |-> o, res |-> res,
     left |-> {}, leftroots |-> {}]

Init == /\ cache = [n \in Nodes |-> NoVals]
        /\ man = [n \in Nodes |-> {}]
        /\ metas = [n \in Nodes |-> {}]
        /\ file = [n \in Nodes |-> NoVals]
        /\ disk = [n \in Nodes |-> Absent]
        /\ open = FALSE
        /\ act = Act("init", "r", "", 0, "", 0)

-----------------------------------------------------------------------------
(* One tag of one node. Results: a value, 0 for None, -1 for LookupError.    *)
Fail == 99
Refused == 98

Known(n, t) == t \in man[n] \/ cache[n][t] # None
Read(n, t) == IF cache[n][t] # None THEN cache[n][t] ELSE file[n][t]

Set(n, t, v) ==
    \E o \in {"set", "item"} :
        /\ cache' = [cache EXCEPT ![n][t] = v]
        /\ man' = [man EXCEPT ![n] = @ \cup {t}]
        /\ act' = Act("set", n, t, v, o, 0)
        /\ UNCHANGED <<metas, file, disk, open>>

SetSave(n, t, v) ==          \* set_tag(cache=False)
    /\ cache' = [cache EXCEPT ![n][t] = None]
    /\ man' = [man EXCEPT ![n] = @ \cup {t}]
    /\ file' = [file EXCEPT ![n][t] = v]
    /\ act' = Act("setsave", n, t, v, "", 0)
    /\ UNCHANGED <<metas, disk, open>>

SaveTag(n, t) ==
    \E o \in {"keep", "drop"} :
        IF cache[n][t] = None
        THEN /\ act' = Act("savetag", n, t, 0, o, Fail)
             /\ UNCHANGED <<cache, man, metas, file, disk, open>>
        ELSE /\ file' = [file EXCEPT ![n][t] = cache[n][t]]
             /\ cache' = IF o = "drop" THEN [cache EXCEPT ![n][t] = None] ELSE cache
             /\ act' = Act("savetag", n, t, 0, o, 0)
             /\ UNCHANGED <<man, metas, disk, open>>

Query(n, t) ==
    \E silent, keep \in BOOLEAN :
        /\ cache' = IF keep THEN [cache EXCEPT ![n][t] = Read(n, t)] ELSE cache
        /\ act' = Act("query", n, t, 0,
                      (IF silent THEN "silent" ELSE "loud") \o (IF keep THEN "+keep" ELSE ""),
                      IF Read(n, t) = None /\ ~silent THEN Fail ELSE Read(n, t))
        /\ UNCHANGED <<man, metas, file, disk, open>>

Pop(n, t) ==
    \E silent \in BOOLEAN :
        /\ cache' = [cache EXCEPT ![n][t] = None]
        /\ man' = [man EXCEPT ![n] = @ \ {t}]
        /\ file' = [file EXCEPT ![n][t] = None]
        /\ act' = Act("pop", n, t, 0, IF silent THEN "silent" ELSE "loud",
                      IF ~Known(n, t) /\ file[n][t] = None /\ ~silent
                      THEN Fail ELSE Read(n, t))
        /\ UNCHANGED <<metas, disk, open>>

Del(n, t) ==
    /\ cache' = [cache EXCEPT ![n][t] = None]
    /\ man' = [man EXCEPT ![n] = @ \ {t}]
    /\ file' = [file EXCEPT ![n][t] = None]
    /\ act' = Act("del", n, t, 0, "", 0)
    /\ UNCHANGED <<metas, disk, open>>

Rollback(n, t) ==
    \E keep \in BOOLEAN :
        /\ man' = IF file[n][t] = None THEN [man EXCEPT ![n] = @ \ {t}] ELSE man
        /\ cache' = [cache EXCEPT ![n][t] = IF keep THEN file[n][t] ELSE None]
        /\ act' = Act("rollback", n, t, 0, IF keep THEN "keep" ELSE "", 0)
        /\ UNCHANGED <<metas, file, disk, open>>

-----------------------------------------------------------------------------
(* One node and everything its metatags reach.                              *)
Clear(n) ==
    \E deep \in BOOLEAN :
        LET hit == IF deep THEN Reach(n, metas) ELSE {n} IN
        /\ cache' = [k \in Nodes |-> IF k \in hit THEN NoVals ELSE cache[k]]
        /\ act' = Act("clear", n, "", 0, IF deep THEN "deep" ELSE "", 0)
        /\ UNCHANGED <<man, metas, file, disk, open>>

SaveDb(n) ==
    \E o \in {"save", "exit", "exiterr"} :
        LET hit == Reach(n, metas) IN
        /\ disk' = [k \in Nodes |-> IF k \in hit
                       THEN [ex |-> TRUE, tags |-> man[k], metas |-> metas[k]]
                       ELSE disk[k]]
        /\ file' = [k \in Nodes |-> [t \in Tags |->
                       IF k \in hit /\ cache[k][t] # None THEN cache[k][t] ELSE file[k][t]]]
        /\ act' = Act("save", n, "", 0, o, 0)
        /\ UNCHANGED <<cache, man, metas, open>>

\* everything the directory lists from n downwards
RECURSIVE DiskReach(_)
DiskReach(n) == {n} \cup UNION {DiskReach(c) : c \in {k \in Kids(n) : Name[k] \in disk[n].metas}}

Loaded(hit, preload, c) ==   \* the caches after loading the nodes in `hit`
    [k \in Nodes |-> IF k \in hit
        THEN [t \in Tags |-> IF preload /\ t \in disk[k].tags THEN file[k][t] ELSE None]
        ELSE c[k]]

Metatag(n, c) ==
    \E preload \in Opens :
        /\ Parent[c] = n
        /\ IF Name[c] \in metas[n]
           THEN UNCHANGED <<cache, man, metas>>
           ELSE LET hit == DiskReach(c) IN
                /\ cache' = Loaded(hit, preload, cache)
                /\ man' = [k \in Nodes |-> IF k \in hit THEN disk[k].tags ELSE man[k]]
                /\ metas' = [k \in Nodes |-> IF k = n THEN metas[n] \cup {Name[c]}
                                ELSE IF k \in hit THEN disk[k].metas ELSE metas[k]]
        /\ act' = Act("metatag", n, Name[c], 0, IF preload THEN "preload" ELSE "", 0)
        /\ UNCHANGED <<file, disk, open>>

\* names the class uses itself cannot become metatags
Reserved(n) ==
    \E o \in {"metatag", "delmeta"} :
        /\ act' = Act("reserved", n, "", 0, o, IF o = "metatag" THEN Refused ELSE Fail)
        /\ UNCHANGED <<cache, man, metas, file, disk, open>>

\* after n and all it reaches is deleted
Gone(n) ==
    LET below == Below(n)
        reached == Reach(n, metas)
        left == {<<k, t>> \in below \X Tags :
                    file[k][t] # None /\ ~(k \in reached /\ t \in man[k])}
        roots == {k \in below \ reached : disk[k].ex}
    IN [below |-> below, left |-> left, roots |-> roots]

Wiped(below, m) ==
    /\ cache' = [k \in Nodes |-> IF k \in below THEN NoVals ELSE cache[k]]
    /\ man' = [k \in Nodes |-> IF k \in below THEN {} ELSE man[k]]
    /\ metas' = [k \in Nodes |-> IF k \in below THEN {} ELSE m[k]]
    /\ file' = [k \in Nodes |-> IF k \in below THEN NoVals ELSE file[k]]
    /\ disk' = [k \in Nodes |-> IF k \in below THEN Absent ELSE disk[k]]

DelMeta(n, c) ==
    /\ Parent[c] = n
    /\ IF Name[c] \notin metas[n]
       THEN /\ act' = Act("delmeta", n, Name[c], 0, "", Fail)
            /\ UNCHANGED <<cache, man, metas, file, disk, open>>
       ELSE LET g == Gone(c) IN
            /\ Wiped(g.below, [metas EXCEPT ![n] = @ \ {Name[c]}])
            /\ act' = [Act("delmeta", n, Name[c], 0, "", 0)
                          EXCEPT !.left = g.left, !.leftroots = g.roots]
            /\ UNCHANGED open

Delete ==
    LET g == Gone("r") IN
    /\ Wiped(g.below, metas)
    /\ open' = FALSE
    /\ act' = [Act("delete", "r", "", 0, "", 0) EXCEPT !.left = g.left, !.leftroots = g.roots]

\* the session ends without saving; a new one (of either class) begins
Keeps(k) == \A a \in Anc(k) : disk[a].ex
Open ==
    \E preload \in Opens :
        LET lost == {k \in Nodes : ~Keeps(k)}
            hit == DiskReach("r")
            left == {<<k, t>> \in lost \X Tags : file[k][t] # None}
            roots == {k \in lost : disk[k].ex}
            d == [k \in Nodes |-> IF k \in lost THEN Absent ELSE disk[k]]
        IN
        /\ file' = [k \in Nodes |-> IF k \in lost THEN NoVals ELSE file[k]]
        /\ disk' = d
        /\ man' = [k \in Nodes |-> IF k \in hit THEN d[k].tags ELSE {}]
        /\ metas' = [k \in Nodes |-> IF k \in hit THEN d[k].metas ELSE {}]
        /\ cache' = [k \in Nodes |-> IF k \in hit
                        THEN [t \in Tags |-> IF preload /\ t \in d[k].tags /\ k \notin lost
                                             THEN file[k][t] ELSE None]
                        ELSE NoVals]
        /\ open' = TRUE
        /\ act' = [Act("open", "r", "", 0, IF preload THEN "preload" ELSE "", 0)
                      EXCEPT !.left = left, !.leftroots = roots]

\* load_database on a session that has no unsaved values
Reload ==
    \E manifest, preload \in BOOLEAN :
        /\ disk["r"].ex
        /\ metas["r"] = {} /\ disk["r"].metas = {}
        /\ preload => \A t \in Tags : cache["r"][t] \in {None, file["r"][t]}
        /\ man' = IF manifest THEN [man EXCEPT !["r"] = disk["r"].tags] ELSE man
        /\ cache' = [cache EXCEPT !["r"] = [t \in Tags |->
                        IF preload /\ t \in man'["r"] THEN file["r"][t] ELSE @[t]]]
        /\ act' = Act("reload", "r", "", 0,
                      (IF manifest THEN "manifest" ELSE "") \o (IF preload THEN "+preload" ELSE ""), 0)
        /\ UNCHANGED <<metas, file, disk, open>>

-----------------------------------------------------------------------------
TagOp(n, t) ==
    \/ "set" \in Ops /\ \E v \in Vals : Set(n, t, v)
    \/ "setsave" \in Ops /\ \E v \in Vals : SetSave(n, t, v)
    \/ "savetag" \in Ops /\ SaveTag(n, t)
    \/ "query" \in Ops /\ Query(n, t)
    \/ "pop" \in Ops /\ Pop(n, t)
    \/ "del" \in Ops /\ Del(n, t)
    \/ "rollback" \in Ops /\ Rollback(n, t)

NodeOp(n) ==
    \/ "clear" \in Ops /\ Clear(n)
    \/ "save" \in Ops /\ SaveDb(n)
    \/ "metatag" \in Ops /\ \E c \in Kids(n) : Metatag(n, c)
    \/ "delmeta" \in Ops /\ \E c \in Kids(n) : DelMeta(n, c)
    \/ "reserved" \in Ops /\ Reserved(n)

Next == \/ ~open /\ Open
        \/ /\ open
           /\ \/ \E n \in Live : (\E t \in Tags : TagOp(n, t)) \/ NodeOp(n)
              \/ "open" \in Ops /\ Open
              \/ "delete" \in Ops /\ Delete
              \/ "reload" \in Ops /\ Reload

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Sanity of the contract itself.                                           *)
TypeOK == /\ cache \in [Nodes -> [Tags -> Vals \cup {None}]]
          /\ file \in [Nodes -> [Tags -> Vals \cup {None}]]
          /\ man \in [Nodes -> SUBSET Tags]
          /\ metas \in [Nodes -> SUBSET Names]

\* nothing is stored below a node without identity, once its session is over
Rooted == ~open => \A n \in Nodes : (n # "r" /\ disk[n].ex) => TRUE

\* only the named tag changes (D01), and only inside one subtree (D03)
OneTag == [][act'.op \in {"set", "setsave", "savetag", "query", "pop", "del", "rollback"}
             => \A n \in Nodes, t \in Tags :
                   (n # act'.n \/ t # act'.t) =>
                      /\ cache'[n][t] = cache[n][t]
                      /\ file'[n][t] = file[n][t]
                      /\ (t \in man'[n]) = (t \in man[n])]_vars
\* unsaved changes never reach the directory
DiskOnlyBySave == [][act'.op \in {"set", "query", "rollback", "clear", "metatag", "reload", "reserved"}
                     => UNCHANGED <<file, disk>>]_vars

View == <<cache, man, metas, file, disk, open>>
StateText(c, m, ms, f, d, o) ==
    ToJson([cache |-> c, man |-> m, metas |-> ms, file |-> f, disk |-> d, open |-> o])
Emit == PrintT("EDGE " \o ToJson(<<StateText(cache, man, metas, file, disk, open), act',
                                    StateText(cache', man', metas', file', disk', open')>>))
EmitInit == (act.op = "init") => PrintT("INIT " \o StateText(cache, man, metas, file, disk, open))
=============================================================================
