------------------------------ MODULE Digest ------------------------------
(* tdigest (property C16).                                                  *)
(* A row is <<group, value, copies>>; the value NULL stands for NULL or NaN. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Points, Rat, TLC
CONSTANTS Values, Copies, Groups, Sizes, MaxRows, WithNull, EmitAll
VARIABLES rows, d
vars == <<rows, d>>

Init == rows = <<>> /\ d \in Sizes
Feed(r) == Len(rows) < MaxRows /\ rows' = Append(rows, r) /\ UNCHANGED d
Next == \E g \in Groups, v \in Values \cup (IF WithNull THEN {NULL} ELSE {}), c \in Copies : Feed(<<g, v, c>>)
Spec == Init /\ [][Next]_vars
NextRandom == /\ Len(rows) < MaxRows
              /\ \E k \in {RandomElement(0..12)} : Feed(<<RandomElement(Groups), IF WithNull /\ k = 0 THEN NULL ELSE RandomElement(Values), RandomElement(Copies)>>)
SpecRandom == Init /\ [][NextRandom]_vars

-----------------------------------------------------------------------------
(* Operational.  A centroid is <<sum, weight>>; a digest keeps centroids in order of their means. *)
Cmp(a, b) == a[1] * b[2] - b[1] * a[2]          \* sign of mean(a) - mean(b)
Empty == [c |-> <<>>, n |-> 0, min |-> 0, max |-> 0, buf |-> <<>>]
(* does the weight w fit under the k-th limit of n values? *)
Fits(w, k, n) == IF 2 * k >= d THEN w * d * d <= n * (d * d - 2 * (d - k) * (d - k)) ELSE w * d * d <= 2 * n * k * k
RECURSIVE Squeeze(_, _, _, _, _, _)
Squeeze(out, cur, rest, sofar, k, st) ==        \* st: <<k of the next limit>>
    IF rest = <<>> THEN Append(out, cur)
    ELSE LET w == sofar + rest[1][2]
         IN IF Fits(w, k, st[2]) THEN Squeeze(out, <<cur[1] + rest[1][1], cur[2] + rest[1][2]>>, Tail(rest), w, k, st)
            ELSE Squeeze(Append(out, cur), rest[1], Tail(rest), w, st[1], <<st[1] + 1, st[2]>>)
Compress(s, n, lag) == SortSeq(Squeeze(<<>>, s[1], Tail(s), s[1][2], 1, <<2 - lag, n>>), LAMBDA a, b : Cmp(a, b) < 0)
RECURSIVE Weave(_, _, _)
Weave(a, b, aFirstOnTie) ==
    IF a = <<>> THEN b ELSE IF b = <<>> THEN a
    ELSE IF Cmp(a[1], b[1]) < 0 \/ (aFirstOnTie /\ Cmp(a[1], b[1]) = 0) THEN <<a[1]>> \o Weave(Tail(a), b, aFirstOnTie)
    ELSE <<b[1]>> \o Weave(a, Tail(b), aFirstOnTie)
Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a < b THEN b ELSE a
Flush(h) == IF h.buf = <<>> THEN h
            ELSE LET v == SortSeq(h.buf, <)
                     n == h.n + Len(v)
                 IN [c |-> Compress(Weave(h.c, [i \in DOMAIN v |-> <<v[i], 1>>], FALSE), n, 0), n |-> n, buf |-> <<>>,
                     min |-> IF h.n = 0 THEN v[1] ELSE Lesser(h.min, v[1]), max |-> IF h.n = 0 THEN v[Len(v)] ELSE Greater(h.max, v[Len(v)])]
Push(h, v) == LET g == [h EXCEPT !.buf = Append(@, v)] IN IF Len(g.buf) >= d THEN Flush(g) ELSE g
Merge(a, b) == LET p == Flush(a)  q == Flush(b)
               IN IF p.n = 0 THEN q ELSE IF q.n = 0 THEN p
                  ELSE [c |-> Compress(Weave(p.c, q.c, TRUE), p.n + q.n, 1), n |-> p.n + q.n, buf |-> <<>>, min |-> Lesser(p.min, q.min), max |-> Greater(p.max, q.max)]
FeedRow(h, r) == IF r[2] = NULL THEN h ELSE FoldLeft(LAMBDA s, i : Push(s, r[2]), h, [i \in 1..r[3] |-> i])
Fold(G) == FoldLeft(LAMBDA s, r : IF r[1] \in G THEN FeedRow(s, r) ELSE s, Empty, rows)
GroupSeq == SetToSortSeq({rows[i][1] : i \in DOMAIN rows}, <)
RollUp == FoldLeft(LAMBDA s, g : Merge(s, Fold({g})), Empty, GroupSeq)

Mean(x) == Rt(x[1], x[2])
Between(p1, w1, p2, w2) == RAdd(p1, RMul(Rt(w1, w1 + w2), RSub(p2, p1)))
RECURSIVE Upto(_, _)
Upto(c, k) == IF k = 0 THEN 0 ELSE Upto(c, k - 1) + c[k][2]
(* the quantile j/8 *)
Quantile(h, j) ==
    LET c == h.c
        r == j * h.n                            \* eight times the rank
        inside == {k \in DOMAIN c : 8 * Upto(c, k - 1) <= r /\ r < 8 * Upto(c, k)}
    IN IF j = 8 THEN RI(h.max) ELSE IF j = 0 \/ (j <= 4 /\ r <= 8) THEN RI(h.min)
       ELSE LET p == CHOOSE k \in inside : TRUE
                x == Rt(r - 8 * Upto(c, p - 1), 8 * c[p][2])
                m == Mean(c[p])
                lo == IF p = 1 THEN RI(h.min) ELSE Between(Mean(c[p - 1]), c[p - 1][2], m, c[p][2])
                hi == IF p = Len(c) THEN RI(h.max) ELSE Between(m, c[p][2], Mean(c[p + 1]), c[p + 1][2])
            IN IF RLt(x, Rt(1, 2)) THEN RAdd(lo, RMul(RMul(x, RI(2)), RSub(m, lo))) ELSE RAdd(m, RMul(RSub(RMul(x, RI(2)), RI(1)), RSub(hi, m)))
(* the share of the values up to v/2 *)
Rank(h, v) ==
    LET c == h.c
        x == Rt(v, 2)
        k == Cardinality({i \in DOMAIN c : RLe(Mean(c[i]), x)})
        below == Upto(c, k)
        lo == IF k = 0 THEN RI(h.min) ELSE Mean(c[k])
        hi == IF k = Len(c) THEN RI(h.max) ELSE Mean(c[k + 1])
        lw == IF k = 0 THEN 0 ELSE c[k][2]
        hw == IF k = Len(c) THEN 0 ELSE c[k + 1][2]
        mid == Between(lo, lw, hi, hw)
    IN IF RLt(x, RI(h.min)) THEN RI(0) ELSE IF RLt(RI(h.max), x) THEN RI(1)
       ELSE IF x = mid THEN Rt(below, h.n)
       ELSE IF RLt(mid, x) THEN RDiv(RAdd(RI(below), RMul(RDiv(RSub(x, mid), RSub(hi, mid)), Rt(hw, 2))), RI(h.n))
       ELSE RDiv(RSub(RI(below), RMul(RDiv(RSub(mid, x), RSub(mid, lo)), Rt(lw, 2))), RI(h.n))

-----------------------------------------------------------------------------
(* Denotation: the sorted values; how far an answer may be off, in ranks, for the size of the digest *)
All == FoldLeft(LAMBDA s, r : IF r[2] = NULL THEN s ELSE s \o [i \in 1..r[3] |-> r[2]], <<>>, rows)
Off(n) == IF 2 * n <= d THEN 1 ELSE 2 + (6 * n) \div d
Clip(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
D == LET s == SortSeq(All, <)
         n == Len(s)
         e == Off(n)
         at(j) == (j * n) \div 8 + 1
     IN [n |-> n, sum |-> FoldLeft(LAMBDA a, x : a + x, 0, s), sorted |-> s,
         q |-> IF n = 0 THEN <<>> ELSE [j \in 1..9 |-> IF j = 1 THEN <<s[1], s[1]>> ELSE IF j = 9 THEN <<s[n], s[n]>>
                                                        ELSE <<s[Clip(at(j - 1) - e, 1, n)], s[Clip(at(j - 1) + e, 1, n)]>>],
         \* for the probe values v/2: at least and at most how many values are at or below it
         r |-> IF n = 0 THEN <<>> ELSE
               [k \in 1..(2 * (s[n] - s[1]) + 3) |->
                  LET v == 2 * s[1] - 2 + k
                      below == Cardinality({i \in DOMAIN s : 2 * s[i] < v})
                      upto == Cardinality({i \in DOMAIN s : 2 * s[i] <= v})
                  IN <<v, IF v < 2 * s[1] THEN 0 ELSE IF v >= 2 * s[n] THEN n ELSE Clip(below - e, 0, n),
                          IF v < 2 * s[1] THEN 0 ELSE IF v >= 2 * s[n] THEN n ELSE Clip(upto + e, 0, n)>>]]

Shape(h, x) == /\ h.n = x.n
               /\ FoldLeft(LAMBDA a, c : a + c[1], 0, h.c) = x.sum
               /\ Upto(h.c, Len(h.c)) = x.n
               /\ Len(h.c) <= d + 1
               /\ x.n > 0 => h.min = x.sorted[1] /\ h.max = x.sorted[x.n]
               /\ \A k \in 1..(Len(h.c) - 1) : Cmp(h.c[k], h.c[k + 1]) <= 0
Answers(h, x) == x.n > 0 =>
    LET q == [j \in 1..9 |-> Quantile(h, j - 1)]
        r == [k \in DOMAIN x.r |-> Rank(h, x.r[k][1])]
    IN /\ \A j \in 1..9 : RLe(RI(x.q[j][1]), q[j]) /\ RLe(q[j], RI(x.q[j][2]))
       /\ \A j \in 1..8 : RLe(q[j], q[j + 1])
       /\ \A k \in DOMAIN r : RLe(Rt(x.r[k][2], x.n), r[k]) /\ RLe(r[k], Rt(x.r[k][3], x.n))
       /\ \A k \in 1..(Len(r) - 1) : RLe(r[k], r[k + 1])
Good(h, x) == Shape(h, x) /\ Answers(h, x)
Routes == {Flush(Fold(Groups)), RollUp} \cup {Merge(Fold(G), Fold(Groups \ G)) : G \in SUBSET Groups}
Refines == (EmitAll \/ Len(rows) = MaxRows) => LET x == D IN \A h \in Routes : Good(h, x)
Shapes == Len(rows) = MaxRows => LET x == D IN \A h \in Routes : Shape(h, x)
EmitCase == (rows # <<>> /\ (EmitAll \/ Len(rows) = MaxRows)) =>
    LET x == D IN Emit([rows |-> rows, size |-> d, n |-> x.n, q |-> x.q, r |-> x.r])
=============================================================================
