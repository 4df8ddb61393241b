------------------------------ MODULE Padding -------------------------------
(* E05. The size of a ciphertext as a function of the plaintext's length,   *)
(* and which sizes a decryption may look at.                                *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Header, Inner, Block, MaxLen
VARIABLE n
Init == n \in 0..MaxLen
Spec == Init /\ [][UNCHANGED n]_n
Blocks(x) == ((Inner + x) \div Block) + 1
Size(x) == Header + Block * Blocks(x)
Pad(x) == Block * Blocks(x) - Inner - x
Sentinel(x) == Pad(x) % Block              \* the last byte of the padding
Unpad(s) == IF s = 0 THEN Block ELSE s
Valid(l) == l > Header /\ (l - Header) % Block = 0
\* at least one byte of padding, and no block more than needed
Least == /\ Pad(n) >= 1 /\ Pad(n) <= Block
         /\ (Blocks(n) - 1) * Block < Inner + n + 1
Inverse == Block * Blocks(n) - Inner - Unpad(Sentinel(n)) = n
Formed == Valid(Size(n))
\* n, read as the length of an alleged ciphertext
OnlyFormed == Valid(n) <=> \E x \in 0..n : Size(x) = n
EmitCase == PrintT("CASE " \o ToJson([n |-> n, size |-> Size(n),
                       blocks |-> Blocks(n), valid |-> IF Valid(n) THEN 1 ELSE 0]))
=============================================================================
