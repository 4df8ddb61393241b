----------------------------- MODULE EntropyMC ------------------------------
(* Two threads of one process and one of another.                            *)
EXTENDS Entropy, TLC
Pair == 1 :> 1 @@ 2 :> 1 @@ 3 :> 2
=============================================================================
