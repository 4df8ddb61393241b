------------------------------ MODULE PassCost ------------------------------
(* K07. The work one password hash is documented to take. Each of `cores`    *)
(* workers fills its share of the memory, walks over every column of every   *)
(* row from both ends and then absorbs the whole memory cpu + 2 times.       *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Mbs, Cpus, Cores, Most
VARIABLES mb, cpu, cores, way
vars == <<mb, cpu, cores, way>>
Init == /\ mb \in Mbs /\ cpu \in Cpus /\ cores \in Cores
        /\ way \in {"hash", "ahash", "verify", "averify", "new", "anew"}
Spec == Init /\ [][UNCHANGED vars]_vars
Up(a, b) == (a + b - 1) \div b
Rounds == IF cpu < 4 THEN 1 ELSE cpu \div 2
Row == 336 * Rounds
Memory == Up(1048576 * Up(mb, cores), Row) * Row     \* of one worker, bytes
Passes == 2 * Rounds + cpu + 2                       \* over that memory
\* the walk from the end may leave out the last row each time it begins
Loose == Rounds * Row
\* more memory, more iterations: more work
Grows == /\ Memory >= 1048576 * Up(mb, cores) /\ Memory < 1048576 * Up(mb, cores) + Row
         /\ Passes > cpu
EmitCase == Up(mb, cores) * Passes * cores <= Most =>
    PrintT("CASE " \o ToJson([mb |-> mb, cpu |-> cpu, cores |-> cores, way |-> way, memory |-> Memory, passes |-> Passes, loose |-> Loose]))
=============================================================================
