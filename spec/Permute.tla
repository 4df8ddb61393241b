------------------------------ MODULE Permute -------------------------------
(* I01. The keyed permutations at small sizes, every key: affine maps modulo *)
(* a prime larger than the domain, walked until they fall into the domain,   *)
(* chained with XOR keys between; stepping adds an odd number to the first   *)
(* XOR key. With Fast the three affine maps are one.                         *)
EXTENDS Integers, FiniteSets, Bitwise
CONSTANTS D, P, Fast
VARIABLES m, add, xor, inc
vars == <<m, add, xor, inc>>
\* m the multiplier, add the affine keys, xor the keys <<in, mid, mid, out>>
Dom == 0..D - 1
Odd == {i \in Dom : i % 2 = 1}
Init == /\ m \in 1..P - 1 /\ inc \in Odd
        /\ add \in {a \in [1..3 -> 0..P - 1] : Fast = 1 => a[1] = a[2] /\ a[2] = a[3]}
        /\ xor \in {x \in [1..4 -> Dom] : x[3] = D - 1 - x[2]}
Step == xor' = [xor EXCEPT ![1] = (@ + inc) % D] /\ UNCHANGED <<m, add, inc>>
Update == \E v \in 1..D - 1 : /\ inc' = (IF (inc ^^ v) % 2 = 1 THEN inc ^^ v ELSE (inc ^^ v) + 1)
                              /\ UNCHANGED <<m, add, xor>>
Next == Step \/ Update
Spec == Init /\ [][Next]_vars
Inv == CHOOSE i \in 1..P - 1 : (i * m) % P = 1
RECURSIVE Aff(_, _), Back(_, _)
Aff(v, a) == LET w == (m * v + a) % P IN IF w >= D THEN Aff(w, a) ELSE w
Back(v, a) == LET w == (Inv * (v - a + P)) % P IN IF w >= D THEN Back(w, a) ELSE w
Bare(v) == Aff(Aff(Aff(v, add[1]) ^^ xor[2], add[2]) ^^ xor[3], add[3])
BareBack(v) == Back(Back(Back(v, add[3]) ^^ xor[3], add[2]) ^^ xor[2], add[1])
At(k, v) == Bare(v ^^ k) ^^ xor[4]
Perm(v) == At(xor[1], v)
PermBack(v) == BareBack(v ^^ xor[4]) ^^ xor[1]
OneToOne == /\ {Perm(v) : v \in Dom} = Dom /\ {Bare(v) : v \in Dom} = Dom
            /\ {Aff(v, add[1]) : v \in Dom} = Dom
Inverse == \A v \in Dom : /\ PermBack(Perm(v)) = v /\ BareBack(Bare(v)) = v
                          /\ Back(Aff(v, add[1]), add[1]) = v
\* D steps give every input each output once
Square == \A v \in Dom : {At((xor[1] + k * inc) % D, v) : k \in Dom} = Dom
=============================================================================
