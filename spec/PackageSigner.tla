--------------------------- MODULE PackageSigner ----------------------------
(* K04. One package in a signer: `key` is the signing key set, `file` the     *)
(* content added under one name (0: not added), `cred` the public            *)
(* credentials, `ver` the version in scope, and sig[v] what was signed for   *)
(* version v. `saved` says the database on disk has all of this.             *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Keys, Files, Creds
VARIABLES db, key, file, cred, ver, sig, saved, act
view == <<db, key, file, cred, ver, sig, saved>>
None == <<0, 0, 0>>
Vers == {1, 2}
Others == {"username", "passphrase", "salt", "credentials", "fewer", "path", "cost", "package"}
Act(op, x, res) == [op |-> op, x |-> x, res |-> res]
Init == /\ db = 0 /\ key = 0 /\ file = 0 /\ cred = 0 /\ ver = 1 /\ saved = 0
        /\ sig = [v \in Vers |-> None] /\ act = Act("init", 0, "")
Refuse(op, x, why) == act' = Act(op, x, why) /\ UNCHANGED view
Connect == /\ db = 0 /\ db' = 1 /\ act' = Act("connect", 0, "ok") /\ UNCHANGED <<key, file, cred, ver, sig, saved>>
SetKey(k) == IF db = 0 THEN Refuse("key", k, "no database")
             ELSE key' = k /\ saved' = 0 /\ act' = Act("key", k, "ok") /\ UNCHANGED <<db, file, cred, ver, sig>>
BadKey == Refuse("badkey", 0, "refused")
AddFile(f) == file' = f /\ act' = Act("file", f, "ok") /\ UNCHANGED <<db, key, cred, ver, sig, saved>>
Credit(c) == IF db = 0 THEN Refuse("cred", c, "no database")
             ELSE cred' = c /\ saved' = 0 /\ act' = Act("cred", c, "ok") /\ UNCHANGED <<db, key, file, ver, sig>>
Version(v) == ver' = v /\ act' = Act("version", v, "ok") /\ UNCHANGED <<db, key, file, cred, sig, saved>>
Content == <<key, file, cred>>
Sign == IF db = 0 THEN Refuse("sign", 0, "no database")
        ELSE IF key = 0 THEN Refuse("sign", 0, "no key")
        ELSE /\ sig' = [sig EXCEPT ![ver] = Content] /\ saved' = 0 /\ act' = Act("sign", 0, "ok")
             /\ UNCHANGED <<db, key, file, cred, ver>>
Summarize == UNCHANGED view /\ act' = Act("summarize", 0,
    IF db = 0 THEN "no database" ELSE IF key = 0 THEN "no key"
    ELSE IF sig[ver] = None THEN "not signed" ELSE IF sig[ver] = Content THEN "ok" ELSE "unsynced")
ReadKey == UNCHANGED view /\ act' = Act("readkey", 0,
    IF db = 0 THEN "no database" ELSE IF key = 0 THEN "no key" ELSE "ok")
Save == /\ db = 1 /\ saved' = 1 /\ act' = Act("save", 0, "ok") /\ UNCHANGED <<db, key, file, cred, ver, sig>>
\* a new signer object for version 1, connected to the saved database
Reopen == /\ db = 1 /\ saved = 1 /\ file' = 0 /\ ver' = 1 /\ act' = Act("reopen", 0, "ok")
          /\ UNCHANGED <<db, key, cred, sig, saved>>
\* a new signer that differs in one of the things the database is opened with
Stranger(w) == db = 1 /\ saved = 1 /\ key = 1 /\ file = 0 /\ ver = 1 /\ UNCHANGED view /\ act' = Act("stranger", w, "no key")
Next == \/ Connect \/ Sign \/ Summarize \/ ReadKey \/ Save \/ Reopen \/ BadKey
        \/ \E k \in Keys : SetKey(k)
        \/ \E f \in Files : AddFile(f)
        \/ \E c \in Creds : Credit(c)
        \/ \E v \in Vers : Version(v)
        \/ \E w \in Others : Stranger(w)
Spec == Init /\ [][Next]_<<view, act>>
Honest == [][act'.op = "summarize" /\ act'.res = "ok" => sig[ver] = Content]_<<view, act>>
Rec(a, b, c, d, e, f, g) == ToJson([db |-> a, key |-> b, file |-> c, cred |-> d, ver |-> e, sig |-> f, saved |-> g])
Text == Rec(db, key, file, cred, ver, sig, saved)
Emit == PrintT("EDGE " \o ToJson(<<Text, act', Rec(db', key', file', cred', ver', sig', saved')>>))
EmitInit == act.op = "init" => PrintT("INIT " \o Text)
=============================================================================
