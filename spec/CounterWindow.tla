--------------------------- MODULE CounterWindow ---------------------------
(* Windowed answers of counter_agg and gauge_agg (property C07).             *)
(* The rows fall into three aggregates by their time (before cuts[1], before *)
(* cuts[2], later).  The reset-adjusted counter is read as a continuous,     *)
(* piecewise linear function of time; interpolated answers are differences   *)
(* of that function.  Extrapolation follows Prometheus' rate():  times are   *)
(* in units of which MS make a millisecond.                                  *)
EXTENDS Counter
CONSTANTS CutSets, MsNum, MsDen, Multisets
VARIABLES cuts
wvars == <<vars, cuts>>
MS == Rt(MsNum, MsDen)

WInit == Init /\ cuts \in CutSets
After(t, v) == Multisets /\ rows # <<>> => LET z == rows[Len(rows)] IN t > z[1] \/ (t = z[1] /\ v >= z[2])
WNext == /\ \E r \in RowSet : After(r[1], r[2]) /\ Feed(r)
         /\ UNCHANGED cuts
WSpec == WInit /\ [][WNext]_wvars
WNextRandom == NextRandom /\ UNCHANGED cuts
WSpecRandom == WInit /\ [][WNextRandom]_wvars

Bucket(t) == IF t < cuts[1] THEN 1 ELSE IF t < cuts[2] THEN 2 ELSE 3
P(A) == PointsOf(SelectSeq(rows, LAMBDA r : r[1] # NULL /\ Bucket(r[1]) \in A))
LastT(p) == p[Len(p)][1]

-----------------------------------------------------------------------------
(* Operational: interpolated points are combined with the summary of aggregate 2.  Points carry rational values here. *)
Lin(a, b, t) == RAdd(a[2], RMul(RSub(b[2], a[2]), Rt(t - a[1], b[1] - a[1])))
RPt(p) == <<p[1], RI(p[2])>>
Cut0(a, b) == IF ~Gauge /\ RLt(b[2], a[2]) THEN <<a[1], RI(0)>> ELSE a
(* [ft, fv, lt, lv, rs]: first and last point, reset sum *)
Small(s) == [ft |-> s.first[1], fv |-> RI(s.first[2]), lt |-> s.last[1], lv |-> RI(s.last[2]), rs |-> RI(s.rs)]
Interp(w, u, v) ==
    LET s == Fold(P({2}))  first == RPt(s.first)  last == RPt(s.last)
        a == IF u /\ s.first[1] > w[1]
             THEN LET q == RPt(P({1})[Len(P({1}))])  x == Lin(Cut0(q, first), first, w[1])
                  IN [Small(s) EXCEPT !.ft = w[1], !.fv = x, !.rs = IF ~Gauge /\ RLt(first[2], x) THEN RAdd(@, x) ELSE @]
             ELSE Small(s)
        n == RPt(P({3})[1])
        y == Lin(Cut0(last, n), n, w[2])
    IN IF ~v \/ w[2] = a.lt THEN a
       ELSE [a EXCEPT !.lt = w[2], !.lv = y, !.rs = IF ~Gauge /\ RLt(y, last[2]) THEN RAdd(@, last[2]) ELSE @]
IDeltaOf(x) == RSub(RAdd(x.lv, x.rs), x.fv)
IRateOf(x) == IF x.lt = x.ft THEN None ELSE RDiv(IDeltaOf(x), RI(x.lt - x.ft))

(* extrapolation from a summary *)
Extrapolate(s, b) ==
    LET dt == RI(s.last[1] - s.first[1])
        delta == RI(s.last[2] + s.rs - s.first[2])
        avg == RDiv(dt, RI(s.n - 1))
        toStart0 == RI(s.first[1] - b[1])
        toEnd == RSub(RI(b[2] - s.last[1]), MS)
        toZero == RDiv(RMul(dt, RI(s.first[2])), delta)
        clamp == delta[1] > 0 /\ s.first[2] >= 0
        toStart == IF clamp THEN RMin(toStart0, toZero) ELSE toStart0
        limit == RMul(avg, Rt(11, 10))
        half == RDiv(avg, RI(2))
        ext(d) == IF RLt(d, limit) THEN d ELSE half
        d == RMul(delta, RDiv(RAdd(dt, RAdd(ext(toStart), ext(toEnd))), dt))
        len == RSub(RI(b[2] - b[1]), MS)
    IN IF b[2] <= s.last[1] \/ b[1] > s.first[1] THEN [err |-> TRUE, delta |-> None, rate |-> None, tie |-> FALSE]
       ELSE IF s.n = 1 THEN [err |-> FALSE, delta |-> None, rate |-> None, tie |-> FALSE]
       ELSE [err |-> FALSE, delta |-> d, rate |-> IF len[1] <= 0 THEN None ELSE RDiv(d, len), tie |-> toStart = limit \/ toEnd = limit]

-----------------------------------------------------------------------------
(* Denotation: the adjusted counter as a function of time over points p, between its first and last point *)
F(p, t) == LET i == CHOOSE i \in DOMAIN p : p[i][1] <= t /\ (i = Len(p) \/ p[i + 1][1] > t)
           IN IF p[i][1] = t THEN RI(Adj(p, i)) ELSE Lin(<<p[i][1], RI(Adj(p, i))>>, <<p[i + 1][1], RI(Adj(p, i + 1))>>, t)
(* between which instants the window's change is taken: beyond aggregate 2 only as far as there is a neighbour *)
From(w, u) == IF u /\ w[1] < P({2})[1][1] THEN w[1] ELSE P({2})[1][1]
To(w, v) == IF v THEN w[2] ELSE LastT(P({2}))
DDelta(w, u, v) == LET p == P({1, 2, 3}) IN RSub(F(p, To(w, v)), F(p, From(w, u)))
DRate(w, u, v) == IF To(w, v) = From(w, u) THEN None ELSE RDiv(DDelta(w, u, v), RI(To(w, v) - From(w, u)))

(* Prometheus: the observed change, stretched to the covered part of the bounds; on the points *)
DExtrapolate(p, b) ==
    LET n == Len(p)
        d == RSub(F(p, LastT(p)), F(p, p[1][1]))
        dt == RI(LastT(p) - p[1][1])
        gap == RDiv(dt, RI(n - 1))
        reach(g) == IF RLt(RMul(g, RI(10)), RMul(gap, RI(11))) THEN g ELSE RDiv(gap, RI(2))
        slope == RDiv(d, dt)
        g0 == RI(p[1][1] - b[1])
        \* a counter cannot have been below zero: going back, the line through the points reaches zero at first value / slope
        start == IF slope[1] > 0 /\ p[1][2] >= 0 THEN RMin(g0, RDiv(RI(p[1][2]), slope)) ELSE g0
    IN RMul(slope, RAdd(dt, RAdd(reach(start), reach(RSub(RI(b[2] - LastT(p)), MS)))))

-----------------------------------------------------------------------------
(* the larger behaviours take a seeded sample of the windows and bounds *)
Some(k, S) == IF EmitAll THEN S ELSE {x \in S : (x[1] * 3 + x[2] * 5 + rows[1][1] + rows[1][2]) % k = 0}
Windows == LET p == P({2})
               a == IF P({1}) = <<>> THEN 0 ELSE LastT(P({1}))
               z == IF P({3}) = <<>> THEN T + 1 ELSE P({3})[1][1]
           IN Some(2, {<<s, e>> \in (a..(p[1][1] + 1)) \X (LastT(p)..z) : s <= e})
Us == IF P({1}) = <<>> THEN {FALSE} ELSE {TRUE, FALSE}
Vs == IF P({3}) = <<>> THEN {FALSE} ELSE {TRUE, FALSE}
Bounds(p) == Some(3, {<<l, r>> : l \in {p[1][1] - 7, p[1][1] - 2, p[1][1] - 1, p[1][1], p[1][1] + 1}, r \in {LastT(p), LastT(p) + 1, LastT(p) + 2, LastT(p) + 4, LastT(p) + 9}})
Now == EmitAll \/ Len(rows) = MaxRows
Aggs == {A \in {{1}, {2}, {3}, {1, 2, 3}} : P(A) # <<>>}

WRefines == Now =>
    /\ P({2}) # <<>> => \A w \in Windows, u \in Us, v \in Vs :
         LET x == Interp(w, u, v) IN IDeltaOf(x) = DDelta(w, u, v) /\ IRateOf(x) = DRate(w, u, v)
    /\ \A A \in Aggs : LET p == P(A)  s == Fold(p) IN \A b \in Bounds(p) :
         LET x == Extrapolate(s, b)
         IN /\ (~x.err /\ Len(p) > 1) => x.delta = DExtrapolate(p, b)
            \* extrapolating a counter never makes it go down
            /\ (~Gauge /\ Vmin >= 0 /\ x.delta # None /\ b[2] > LastT(p) + MsNum) => x.delta[1] >= 0
ECase == [rows |-> rows, cuts |-> cuts,
   interp |-> IF P({2}) = <<>> THEN <<>> ELSE SetToSeq({[w |-> w, u |-> u, v |-> v, delta |-> DDelta(w, u, v), rate |-> DRate(w, u, v)] : w \in Windows, u \in Us, v \in Vs}),
   extra |-> SetToSeq({[A |-> SetToSortSeq(A, <), ex |-> LET p == P(A)  s == Fold(p) IN SetToSeq({[b |-> b, x |-> Extrapolate(s, b)] : b \in Bounds(p)})] : A \in Aggs})]
WEmit == (Now /\ P({1, 2, 3}) # <<>>) => Emit(ECase)
=============================================================================
