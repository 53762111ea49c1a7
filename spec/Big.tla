-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size (TLC's integers have 32 bits): sequences of digits base 10000, least first, no leading zero. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

B == 10000
RECURSIVE BNat(_)
BNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o BNat(n \div B)
LOCAL Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
LOCAL Wide(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
RECURSIVE BTrim(_)
BTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
(* carries the digits of a sequence of naturals *)
LOCAL Carry(a) == LET s == FoldLeft(LAMBDA c, d : <<Append(c[1], (c[2] + d) % B), (c[2] + d) \div B>>, <<<<>>, 0>>, a) IN BTrim(s[1] \o BNat(s[2]))
BAdd(a, b) == Carry([i \in 1..Wide(a, b) |-> Digit(a, i) + Digit(b, i)])
BScale(a, k) == Carry([i \in DOMAIN a |-> a[i] * k])      \* k below 10000
BMul(a, b) == FoldLeft(LAMBDA s, i : BAdd(s, [j \in 1..i - 1 |-> 0] \o BScale(a, b[i])), <<>>, [i \in DOMAIN b |-> i])
BSq(a) == BMul(a, a)
RECURSIVE BCmpAt(_, _, _)
BCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE BCmpAt(a, b, i - 1)
BCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE BCmpAt(a, b, Len(a))
BSum(s) == FoldLeft(BAdd, <<>>, s)
(* 0 at the end of a product does not matter to BTrim, except that the product of zero is zero *)
=============================================================================
