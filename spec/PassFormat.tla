----------------------------- MODULE PassFormat -----------------------------
(* K03. The settings of a password hash, and the bytes of its header.        *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Mbs, Cpus, Cores, Tags, Salts
VARIABLES mb, cpu, cores, tag, salt
vars == <<mb, cpu, cores, tag, salt>>
Init == mb \in Mbs /\ cpu \in Cpus /\ cores \in Cores /\ tag \in Tags /\ salt \in Salts
Spec == Init /\ [][UNCHANGED vars]_vars
Ok == /\ mb >= 1 /\ mb <= 16777216
      /\ cpu >= 1 /\ cpu <= 256
      /\ cores >= 1 /\ cores <= 256
      /\ tag >= 16
      /\ salt >= 4 /\ salt <= 256
Header == <<(mb - 1) \div 65536, ((mb - 1) \div 256) % 256, (mb - 1) % 256,
            cpu - 1, cores - 1, salt - 1>>
\* reading the header back
Back == LET h == Header IN
    /\ h[1] * 65536 + h[2] * 256 + h[3] + 1 = mb
    /\ h[4] + 1 = cpu /\ h[5] + 1 = cores /\ h[6] + 1 = salt
    /\ \A i \in DOMAIN h : h[i] \in 0..255
Fits == Ok => Back
EmitCase == PrintT("CASE " \o ToJson([mb |-> mb, cpu |-> cpu, cores |-> cores, tag |-> tag,
    salt |-> salt, ok |-> IF Ok THEN 1 ELSE 0, header |-> IF Ok THEN Header ELSE <<>>]))
=============================================================================
