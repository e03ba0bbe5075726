------------------------------- MODULE IntsMC -------------------------------
(* The arithmetic of Ints.tla on digits of base 4 against TLC's own, and    *)
(* that its equations have exactly one solution.                            *)
EXTENDS Ints
CONSTANT Most
Base4 == 4
VARIABLES a, b
Init == a \in -Most..Most /\ b \in -Most..Most
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Exact == /\ Legal(N(a)) /\ Small(N(a)) = a
         /\ Add(N(a), N(b)) = N(a + b) /\ Sub(N(a), N(b)) = N(a - b) /\ Mul(N(a), N(b)) = N(a * b)
         /\ Cmp(N(a), N(b)) = Sgn(a - b)
         /\ (a >= 0 => Mod10(N(a)) = a % 10)
Qs == -Most - 1..Most + 1
Unique == /\ (b # 0 => Cardinality({q \in Qs : IsDiv(N(a), N(b), N(q), N(a - q * b))}) = 1)
          /\ (b = 0 /\ a >= 0 => Cardinality({q \in 0..a : IsRoot(N(a), N(q), N(a - q * q))}) = 1)
=============================================================================
