-------------------------------- MODULE Ttl ---------------------------------
(* E03. A message is made at some time and read at another; four ticks are  *)
(* one unit of the scheme's clock. Its age is the difference of the two     *)
(* times in whole units of the clock.                                       *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS MaxTick, Ttls
None == -9
VARIABLES made, read, ttl
vars == <<made, read, ttl>>
Init == made \in 4..7 /\ read \in 0..MaxTick /\ ttl \in Ttls \cup {None}
Spec == Init /\ [][UNCHANGED vars]_vars
Age == (read \div 4) - (made \div 4)
Excess == IF ttl = None \/ Age <= ttl THEN 0 ELSE Age - ttl
Positive == Excess >= 0 /\ (Excess > 0 <=> (ttl # None /\ Age > ttl))
Fresh == (read >= made /\ read - made <= 3 /\ ttl # None /\ ttl >= 1) => Excess = 0
EmitCase == PrintT("CASE " \o ToJson([made |-> made, read |-> read, ttl |-> ttl, excess |-> Excess]))
=============================================================================
