------------------------------ MODULE BigCheck ------------------------------
(* Big.tla against TLC's own integers where those suffice. *)
EXTENDS Integers, Sequences, Big
VARIABLES a, b
Init == a \in {0, 1, 2, 9, 9999, 10000, 10001, 12345, 20000, 46340} /\ b \in {0, 1, 3, 7, 99, 9999, 10000, 30003, 46340}
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Same == /\ BAdd(BNat(a), BNat(b)) = BNat(a + b) /\ BMul(BNat(a), BNat(b)) = BNat(a * b)
        /\ BCmp(BNat(a), BNat(b)) = (IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1)
        /\ (b < 10000 => BScale(BNat(a), b) = BNat(a * b))
        /\ BMul(BSq(BNat(a)), BSq(BNat(b))) = BSq(BNat(a * b))
=============================================================================
