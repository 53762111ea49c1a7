------------------------------- MODULE Stats -------------------------------
(* stats_agg in one and two dimensions and their rollup (property C17).      *)
(* A row is <<group, x, y>>; a row with a NULL does not count.  The          *)
(* operational side keeps Youngs-Cramer sums <<n, Sx, Sxx, Sx3, Sx4>> of      *)
(* deviations, updated row by row, combined and (for moving windows)         *)
(* reduced; the denotation is the textbook definition from the rows.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Points, Rat, TLC
CONSTANTS Values, Groups, MaxRows, WithNull, EmitAll, Multisets
VARIABLES rows
vars == <<rows>>

VN == IF WithNull THEN Values \cup {NULL} ELSE Values
Init == rows = <<>>
Feed(r) == Len(rows) < MaxRows /\ rows' = Append(rows, r)
LeSeq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3])))
After(r) == Multisets /\ rows # <<>> => LeSeq(rows[Len(rows)], r)
Next == \E g \in Groups, x \in VN, y \in VN : After(<<g, x, y>>) /\ Feed(<<g, x, y>>)
Spec == Init /\ [][Next]_vars
(* long behaviours mix spread-out rows, few distinct values, and near-linear data *)
NextRandom == Len(rows) < MaxRows /\ \E g \in {RandomElement(Groups)}, x \in {RandomElement(Values)}, y \in {RandomElement(Values)}, s \in {RandomElement(1..4)} :
                 Feed(<<g, IF s = 1 /\ rows # <<>> THEN rows[1][2] ELSE x, IF s = 2 /\ rows # <<>> THEN rows[1][3] ELSE IF s = 3 THEN x ELSE y>>)
SpecRandom == Init /\ [][NextRandom]_vars

XY(G) == SelectSeq(rows, LAMBDA r : r[1] \in G /\ r[2] # NULL /\ r[3] # NULL)
OnlyX(G) == SelectSeq(rows, LAMBDA r : r[1] \in G /\ r[2] # NULL)
Col(q, c) == [i \in DOMAIN q |-> q[i][c]]

-----------------------------------------------------------------------------
(* Operational (one dimension): the deviation sums of a sequence of numbers *)
ZeroM == [n |-> 0, s |-> RI(0), m2 |-> RI(0), m3 |-> RI(0), m4 |-> RI(0)]
RP2(a) == RMul(a, a)
RP3(a) == RMul(a, RP2(a))
Accum(a, x) ==
    IF a.n = 0 THEN [ZeroM EXCEPT !.n = 1, !.s = RI(x)]
    ELSE LET n == a.n + 1
             d == RSub(RI(x), RDiv(a.s, RI(a.n)))
             t == RSub(RI(x * n), RAdd(a.s, RI(x)))
         IN [n |-> n, s |-> RAdd(a.s, RI(x)),
             m2 |-> RAdd(a.m2, RDiv(RP2(t), RI(n * a.n))),
             m3 |-> RSub(RAdd(a.m3, RMul(RP3(d), Rt((n - 1) * (n - 2), n * n))), RMul(RMul(RI(3), d), RDiv(a.m2, RI(n)))),
             m4 |-> RSub(RAdd(RAdd(a.m4, RMul(RP2(RP2(d)), Rt((n - 1) * (n * n - 3 * n + 3), n * n * n))), RMul(RMul(RI(6), RP2(d)), RDiv(a.m2, RI(n * n)))),
                         RMul(RMul(RI(4), d), RDiv(a.m3, RI(n))))]
RECURSIVE AccumTo(_, _)
AccumTo(q, k) == IF k = 0 THEN ZeroM ELSE Accum(AccumTo(q, k - 1), q[k])
Op(q) == AccumTo(q, Len(q))
Comb(a, b) ==
    IF a.n = 0 THEN b ELSE IF b.n = 0 THEN a
    ELSE LET n == a.n + b.n  p == a.n * b.n
             d == RSub(RDiv(b.s, RI(b.n)), RDiv(a.s, RI(a.n)))
         IN [n |-> n, s |-> RAdd(a.s, b.s),
             m2 |-> RAdd(RAdd(a.m2, b.m2), RMul(RP2(d), Rt(p, n))),
             m3 |-> RAdd(RAdd(RAdd(a.m3, b.m3), RMul(RP3(d), Rt(p * (a.n - b.n), n * n))),
                         RMul(RMul(RI(3), RDiv(d, RI(n))), RSub(RMul(RI(a.n), b.m2), RMul(RI(b.n), a.m2)))),
             m4 |-> RAdd(RAdd(RAdd(a.m4, b.m4), RMul(RP2(RP2(d)), Rt(p * (a.n * a.n - p + b.n * b.n), n * n * n))),
                         RAdd(RMul(RMul(RI(6), RDiv(RP2(d), RI(n * n))), RAdd(RMul(RI(a.n * a.n), b.m2), RMul(RI(b.n * b.n), a.m2))),
                              RMul(RMul(RI(4), RDiv(d, RI(n))), RSub(RMul(RI(a.n), b.m3), RMul(RI(b.n), a.m3)))))]
(* removing x from a: the inverse of Accum *)
Unaccum(a, x) ==
    IF a.n = 1 THEN ZeroM
    ELSE LET n == a.n  k == n - 1
             s == RSub(a.s, RI(x))
             d == RSub(RI(x), RDiv(s, RI(k)))
             t == RSub(RI(x * n), a.s)
             m2 == RSub(a.m2, RDiv(RP2(t), RI(n * k)))
             m3 == RSub(a.m3, RSub(RMul(RP3(d), Rt(k * (n - 2), n * n)), RMul(RMul(RI(3), d), RDiv(m2, RI(n)))))
         IN [n |-> k, s |-> s, m2 |-> m2, m3 |-> m3,
             m4 |-> RSub(a.m4, RSub(RAdd(RMul(RP2(RP2(d)), Rt(k * (n * n - 3 * n + 3), n * n * n)), RMul(RMul(RI(6), RP2(d)), RDiv(m2, RI(n * n)))),
                                    RMul(RMul(RI(4), d), RDiv(m3, RI(n)))))]
(* the product sum of two dimensions *)
AccumXY(a, x, y) == IF a.n = 0 THEN [n |-> 1, sx |-> RI(x), sy |-> RI(y), p |-> RI(0)]
    ELSE LET n == a.n + 1  sx == RAdd(a.sx, RI(x))  sy == RAdd(a.sy, RI(y))
         IN [n |-> n, sx |-> sx, sy |-> sy, p |-> RAdd(a.p, RDiv(RMul(RSub(RI(x * n), sx), RSub(RI(y * n), sy)), RI(n * a.n)))]
RECURSIVE AccumXYTo(_, _)
AccumXYTo(q, k) == IF k = 0 THEN [n |-> 0, sx |-> RI(0), sy |-> RI(0), p |-> RI(0)] ELSE AccumXY(AccumXYTo(q, k - 1), q[k][2], q[k][3])
OpXY(q) == AccumXYTo(q, Len(q))

-----------------------------------------------------------------------------
(* Denotation: n times the mean is the sum; deviation sums from power sums *)
Pow(q, c, k) == Sum([i \in DOMAIN q |-> q[i][c] ^ k])
D1(q, c) ==
    LET n == Len(q)  a == Pow(q, c, 1)  b == Pow(q, c, 2)  cc == Pow(q, c, 3)  d == Pow(q, c, 4)
    IN IF n = 0 THEN ZeroM
       ELSE [n |-> n, s |-> RI(a), m2 |-> Rt(n * b - a * a, n), m3 |-> Rt(n * n * cc - 3 * n * a * b + 2 * a * a * a, n * n),
             m4 |-> Rt(n * n * n * d - 4 * n * n * a * cc + 6 * n * a * a * b - 3 * a * a * a * a, n * n * n)]
DP(q) == IF q = <<>> THEN RI(0) ELSE Rt(Len(q) * Sum([i \in DOMAIN q |-> q[i][2] * q[i][3]]) - Pow(q, 2, 1) * Pow(q, 3, 1), Len(q))
(* least squares line y = slope x + intercept; undefined for a vertical set of points *)
Line(q) ==
    LET x == D1(q, 2)  y == D1(q, 3)  p == DP(q)
        m == RDiv(p, x.m2)
        b == RDiv(RSub(y.s, RMul(m, x.s)), RI(Len(q)))
    IN IF q = <<>> \/ x.m2[1] = 0 THEN [slope |-> None, intercept |-> None, xint |-> IF Len(q) > 1 THEN RDiv(x.s, RI(Len(q))) ELSE None, r2 |-> None, vertical |-> Len(q) > 1]
       ELSE [slope |-> m, intercept |-> b, xint |-> IF m[1] = 0 THEN None ELSE RNeg(RDiv(b, m)),
             r2 |-> IF y.m2[1] = 0 THEN None ELSE RDiv(RMul(m, p), y.m2), vertical |-> FALSE]
(* the line minimizes the squared residuals: the derivative vanishes *)
Residual(q, i, l) == RSub(RI(q[i][3]), RAdd(RMul(l.slope, RI(q[i][2])), l.intercept))
Normal(q) == LET l == Line(q) IN l.slope # None =>
    /\ RSum([i \in DOMAIN q |-> Residual(q, i, l)])[1] = 0
    /\ RSum([i \in DOMAIN q |-> RMul(RI(q[i][2]), Residual(q, i, l))])[1] = 0

Small == MaxRows <= 6 /\ (EmitAll \/ Len(rows) = MaxRows)
Refines == Small =>
    /\ \A G \in SUBSET Groups : Op(Col(OnlyX(G), 2)) = D1(OnlyX(G), 2)
    /\ LET a == OpXY(XY(Groups)) IN a.p = DP(XY(Groups))
    /\ Normal(XY(Groups))
CombineOK == Small => \A G \in SUBSET Groups : Comb(Op(Col(OnlyX(G), 2)), Op(Col(OnlyX(Groups \ G), 2))) = Op(Col(OnlyX(Groups), 2))
RemoveOK == Small => LET q == Col(OnlyX(Groups), 2) IN \A i \in DOMAIN q : Unaccum(Op(q), q[i]) = Op(SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q)))

EM(m) == <<m.n, m.s, m.m2, m.m3, m.m4>>
EmitCase == (rows # <<>> /\ (EmitAll \/ Len(rows) = MaxRows)) =>
    LET q == XY(Groups)  o == OnlyX(Groups)
    IN Emit([rows |-> rows, o |-> EM(D1(o, 2)), x |-> EM(D1(q, 2)), y |-> EM(D1(q, 3)), p |-> DP(q), line |-> Line(q)])
=============================================================================
