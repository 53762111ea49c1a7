-------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers: <<numerator, denominator>>, denominator > 0, in  *)
(* lowest terms.  None stands for an absent answer (SQL NULL).              *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

None == <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Rt(n, d) == LET g == Gcd(Abs(n), Abs(d))
                s == IF d < 0 THEN -1 ELSE 1
            IN <<s * (n \div g), s * (d \div g)>>
RI(n) == <<n, 1>>
RAdd(a, b) == IF a[2] = b[2] THEN Rt(a[1] + b[1], a[2])
              ELSE LET g == Gcd(a[2], b[2]) IN Rt(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g == Gcd(Abs(a[1]), b[2])  h == Gcd(Abs(b[1]), a[2])
              IN IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>>
                 ELSE <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RDiv(a, b) == RMul(a, IF b[1] < 0 THEN <<-b[2], -b[1]>> ELSE <<b[2], b[1]>>)
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
RMax(a, b) == IF RLt(a, b) THEN b ELSE a

(* sums over sequences of integers *)
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE SumTo(f, k - 1) + f[k]
Sum(f) == SumTo(f, Len(f))
RECURSIVE RSumTo(_, _)
RSumTo(f, k) == IF k = 0 THEN <<0, 1>> ELSE RAdd(RSumTo(f, k - 1), f[k])
RSum(f) == RSumTo(f, Len(f))
=============================================================================
