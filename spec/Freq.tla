------------------------------- MODULE Freq -------------------------------
(* freq_agg and mcv_agg (property C13): the space saving sketch with m counters. *)
(* A row is <<group, value, copies>>; NULL values are ignored.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Points, TLC
CONSTANTS Values, Copies, Groups, Sizes, MaxRows, WithNull, EmitAll
VARIABLES rows, m
vars == <<rows, m>>

Init == rows = <<>> /\ m \in Sizes
Feed(r) == Len(rows) < MaxRows /\ rows' = Append(rows, r) /\ UNCHANGED m
Next == \E g \in Groups, v \in Values \cup (IF WithNull THEN {NULL} ELSE {}), c \in Copies : Feed(<<g, v, c>>)
Spec == Init /\ [][Next]_vars
(* skewed random streams: a value drawn as the smaller of two is more often small *)
NextRandom == /\ Len(rows) < MaxRows
              /\ \E k \in {RandomElement(0..14)}, v \in {RandomElement(Values)}, w \in {RandomElement(Values)}, c \in {RandomElement(Copies)} :
                    Feed(<<RandomElement(Groups), IF WithNull /\ k = 0 THEN NULL ELSE IF k < 10 /\ w < v THEN w ELSE v, IF k = 14 THEN c * 7 ELSE c>>)
SpecRandom == Init /\ [][NextRandom]_vars

-----------------------------------------------------------------------------
(* Operational: at most m counters in descending order of count; v value, c count, o possible overcount *)
Empty == [e |-> <<>>, n |-> 0]
RECURSIVE Target(_, _, _)
Target(e, i, c) == IF i > 1 /\ e[i - 1].c < c THEN Target(e, i - 1, c) ELSE i
MoveLeft(e, i) == LET t == Target(e, i, e[i].c) IN [e EXCEPT ![i] = e[t], ![t] = e[i]]
Bump(e, i) == MoveLeft([e EXCEPT ![i].c = @ + 1], i)
Push(s, v) ==
    LET at == {i \in DOMAIN s.e : s.e[i].v = v}
        k == Len(s.e)
    IN [n |-> s.n + 1,
        e |-> IF at # {} THEN Bump(s.e, CHOOSE i \in at : TRUE)
              ELSE IF k < m THEN Append(s.e, [v |-> v, c |-> 1, o |-> 0])
              ELSE MoveLeft([s.e EXCEPT ![k] = [v |-> v, c |-> @.c + 1, o |-> @.c]], k)]
Listed(s) == {s.e[i].v : i \in DOMAIN s.e}
Entry(s, v) == s.e[CHOOSE i \in DOMAIN s.e : s.e[i].v = v]
(* what a value that is not listed may have been counted *)
Floor(s) == IF Len(s.e) < m THEN 0 ELSE s.e[Len(s.e)].c
Part(s, v) == IF v \in Listed(s) THEN Entry(s, v) ELSE [v |-> v, c |-> Floor(s), o |-> Floor(s)]
(* which of the entries with equal counts survive is left open: up decides *)
Merge(a, b, up) ==
    LET all == {[v |-> v, c |-> Part(a, v).c + Part(b, v).c, o |-> Part(a, v).o + Part(b, v).o] : v \in Listed(a) \cup Listed(b)}
        sorted == SetToSortSeq(all, LAMBDA x, y : x.c > y.c \/ (x.c = y.c /\ IF up THEN x.v < y.v ELSE x.v > y.v))
    IN [n |-> a.n + b.n, e |-> SubSeq(sorted, 1, IF Len(sorted) < m THEN Len(sorted) ELSE m)]
FeedRow(s, r) == IF r[2] = NULL THEN s ELSE FoldLeft(LAMBDA t, i : Push(t, r[2]), s, [i \in 1..r[3] |-> i])
Fold(G) == FoldLeft(LAMBDA s, r : IF r[1] \in G THEN FeedRow(s, r) ELSE s, Empty, rows)
GroupSeq == SetToSortSeq({rows[i][1] : i \in DOMAIN rows}, <)
RollUp(up) == LET q == GroupSeq IN IF q = <<>> THEN Empty ELSE FoldLeft(LAMBDA s, g : Merge(s, Fold({g}), up), Fold({q[1]}), Tail(q))
(* a partial state that goes on being fed after it was combined *)
Resumed(up) == LET k == Len(rows) \div 2
                   half(G, I) == FoldLeft(LAMBDA s, i : IF rows[i][1] \in G THEN FeedRow(s, rows[i]) ELSE s, Empty, I)
                   g == {rows[1][1]}
               IN FoldLeft(LAMBDA s, i : FeedRow(s, rows[i]), Merge(half(g, [i \in 1..k |-> i]), half(Groups \ g, [i \in 1..k |-> i]), up), [i \in 1..(Len(rows) - k) |-> k + i])

-----------------------------------------------------------------------------
(* Denotation: the true counts *)
Used == SelectSeq(rows, LAMBDA r : r[2] # NULL)
Sum(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
Count(v) == FoldLeft(LAMBDA a, r : IF r[2] = v THEN a + r[3] ELSE a, 0, rows)
D == LET vs == {Used[i][2] : i \in DOMAIN Used}
         cnt == [v \in vs |-> Count(v)]
         n == Sum([i \in DOMAIN Used |-> Used[i][3]])
         ranked == SetToSortSeq({<<cnt[v], v>> : v \in vs}, LAMBDA x, y : x[1] > y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
         top(k) == Sum([i \in 1..k |-> ranked[i][1]])
         ks == 0..((IF m < Cardinality(vs) THEN m ELSE Cardinality(vs)) - 1)
     IN [n |-> n, cnt |-> ranked,
         \* a value is never lost when, after setting aside the k most common ones, it has more than an even share of what is left for m - k counters
         must |-> {v \in vs : \E k \in ks : cnt[v] * (m - k) > n - top(k)},
         exact |-> Cardinality(vs) <= m]

Good(s, x) ==
    /\ s.n = x.n /\ Len(s.e) <= m /\ Cardinality(Listed(s)) = Len(s.e)
    /\ \A i \in 1..(Len(s.e) - 1) : s.e[i].c >= s.e[i + 1].c
    /\ \A i \in DOMAIN s.e : s.e[i].c - s.e[i].o <= Count(s.e[i].v) /\ Count(s.e[i].v) <= s.e[i].c
    /\ x.must \subseteq Listed(s)
    /\ \A i \in DOMAIN x.cnt : x.cnt[i][2] \in Listed(s) \/ x.cnt[i][1] <= Floor(s)
    /\ x.exact => \A i \in DOMAIN s.e : s.e[i].o = 0 /\ s.e[i].c = Count(s.e[i].v)
Routes == {Fold(Groups), RollUp(TRUE), RollUp(FALSE)} \cup (IF rows = <<>> THEN {} ELSE {Resumed(TRUE), Resumed(FALSE)})
          \cup {Merge(Fold(G), Fold(Groups \ G), u) : G \in SUBSET Groups, u \in BOOLEAN}
Refines == (EmitAll \/ Len(rows) = MaxRows) => LET x == D IN \A s \in Routes : Good(s, x)
EmitCase == (rows # <<>> /\ (EmitAll \/ Len(rows) = MaxRows)) =>
    LET x == D IN Emit([rows |-> rows, size |-> m, n |-> x.n, cnt |-> x.cnt, must |-> SetToSortSeq(x.must, <), exact |-> x.exact])
=============================================================================
