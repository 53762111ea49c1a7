-------------------------------- MODULE Udd --------------------------------
(* uddsketch / percentile_agg (property C15).                                *)
(* A row is <<group, sign, lo, hi>>: one value of that sign in each of the buckets lo..hi, one zero for sign 0, NULL for lo > hi. *)
(* Bucket i holds the magnitudes in (gamma^(i-1), gamma^i].                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Points, TLC
CONSTANTS Keys, MaxRun, Groups, Sizes, MaxRows, EmitAll
VARIABLES rows, size
vars == <<rows, size>>

Init == rows = <<>> /\ size \in Sizes
Top == CHOOSE v \in Keys : \A w \in Keys : w <= v
Feed(r) == Len(rows) < MaxRows /\ rows' = Append(rows, r) /\ UNCHANGED size
Next == \E g \in Groups, s \in {-1, 0, 1}, lo \in Keys, k \in 0..MaxRun :
          /\ s = 0 => lo = Top /\ k = 1
          /\ lo + k - 1 <= Top
          /\ Feed(<<g, s, lo, lo + k - 1>>)
Spec == Init /\ [][Next]_vars
NextRandom == /\ Len(rows) < MaxRows
              /\ \E s \in {RandomElement(-3..5)}, lo \in {RandomElement(Keys)}, k \in {RandomElement(0..MaxRun)} :
                   Feed(<<RandomElement(Groups), IF s < 0 THEN -1 ELSE IF s = 0 THEN 0 ELSE 1, lo, IF s = 0 THEN lo ELSE IF lo + k - 1 > Top THEN Top ELSE lo + k - 1>>)
SpecRandom == Init /\ [][NextRandom]_vars

-----------------------------------------------------------------------------
(* A bucket is <<sign, index>>; buckets are ordered by the values they hold. *)
Before(a, b) == IF a[1] # b[1] THEN a[1] < b[1] ELSE a[1] * a[2] < b[1] * b[2]
Up(i) == IF i > 0 THEN (i + 1) \div 2 ELSE -((-i) \div 2)
UpBucket(b) == IF b[1] = 0 THEN b ELSE <<b[1], Up(b[2])>>
Buckets(r) == IF r[2] = 0 THEN {<<0, 0>>} ELSE {<<r[2], i>> : i \in r[3]..r[4]}

(* Operational: buckets with counts, halved in resolution as often as needed whenever there are too many *)
Empty == [level |-> 0, b |-> <<>>, n |-> 0]          \* b: function bucket -> count
CountOf(b, x) == IF x \in DOMAIN b THEN b[x] ELSE 0
RECURSIVE SumOver(_, _)
SumOver(b, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : TRUE IN b[x] + SumOver(b, s \ {x})
Compact(h) == [h EXCEPT !.level = @ + 1, !.b = [x \in {UpBucket(y) : y \in DOMAIN h.b} |-> SumOver(h.b, {y \in DOMAIN h.b : UpBucket(y) = x})]]
RECURSIVE Settle(_)
Settle(h) == IF Cardinality(DOMAIN h.b) <= size THEN h ELSE Settle(Compact(h))
RECURSIVE UpTo(_, _)
UpTo(h, l) == IF h.level >= l THEN h ELSE UpTo(Compact(h), l)
RECURSIVE UpB(_, _)
UpB(x, k) == IF k = 0 THEN x ELSE UpB(UpBucket(x), k - 1)
AddB(h, x) == LET y == UpB(x, h.level) IN Settle([h EXCEPT !.n = @ + 1, !.b = [z \in DOMAIN h.b \cup {y} |-> CountOf(h.b, z) + (IF z = y THEN 1 ELSE 0)]])
Merge(a, b) == IF b.n = 0 THEN a ELSE IF a.n = 0 THEN b
               ELSE LET l == IF a.level < b.level THEN b.level ELSE a.level
                        p == UpTo(a, l)
                        q == UpTo(b, l)
                    IN Settle([level |-> l, n |-> a.n + b.n, b |-> [x \in DOMAIN p.b \cup DOMAIN q.b |-> CountOf(p.b, x) + CountOf(q.b, x)]])
FeedRow(h, r) == FoldLeft(AddB, h, SetToSeq(Buckets(r)))
Fold(G) == FoldLeft(LAMBDA s, r : IF r[1] \in G THEN FeedRow(s, r) ELSE s, Empty, rows)
GroupSeq == SetToSortSeq({rows[i][1] : i \in DOMAIN rows}, <)
RollUp == FoldLeft(LAMBDA s, g : Merge(s, Fold({g})), Empty, GroupSeq)
(* walking over the buckets in order until the wanted rank is reached *)
Order(h) == SetToSortSeq(DOMAIN h.b, Before)
RECURSIVE Walk(_, _, _)
Walk(h, o, rest) == IF rest <= h.b[o[1]] \/ Len(o) = 1 THEN o[1] ELSE Walk(h, Tail(o), rest - h.b[o[1]])
Quantile(h, j) == Walk(h, Order(h), (h.n * j) \div 8 + 1)

-----------------------------------------------------------------------------
(* Denotation: the coarsest needed resolution over all values, whatever their order; order statistics of all values *)
All == FoldLeft(LAMBDA s, r : s \o SetToSeq(Buckets(r)), <<>>, rows)
AllSorted == SortSeq(All, Before)
AllSet == {All[i] : i \in DOMAIN All}
RECURSIVE Level(_, _)
Level(s, k) == IF Cardinality(s) <= size THEN k ELSE Level({UpBucket(x) : x \in s}, k + 1)
D == LET s == AllSorted
         l == Level(AllSet, 0)
         n == Len(s)
         o == SetToSortSeq({UpB(x, l) : x \in AllSet}, Before)
         at == [i \in DOMAIN s |-> UpB(s[i], l)]
     IN [level |-> l, n |-> n,
         counts |-> [k \in DOMAIN o |-> <<o[k][1], o[k][2], Cardinality({i \in DOMAIN s : at[i] = o[k]})>>],
         \* the bucket of the order statistic number floor(n*q)+1 (the last one for q near 1), and the finest bucket it came from
         q |-> IF n = 0 THEN <<>> ELSE [j \in 0..8 |-> LET i == (n * j) \div 8 + 1 IN IF i >= n THEN n ELSE i]]

Agrees(h, d) == /\ h.level = d.level /\ h.n = d.n
                /\ d.counts = [k \in DOMAIN Order(h) |-> <<Order(h)[k][1], Order(h)[k][2], h.b[Order(h)[k]]>>]
Refines == LET d == D
               f == Fold(Groups)
               s == AllSorted
           IN /\ Agrees(f, d) /\ Agrees(RollUp, d)
              /\ \A G \in SUBSET Groups : Agrees(Merge(Fold(G), Fold(Groups \ G)), d)
              /\ d.n > 0 => \A j \in 0..8 : Quantile(f, j) = UpB(s[d.q[j]], d.level)
EmitCase == (rows # <<>> /\ (EmitAll \/ Len(rows) = MaxRows)) =>
    LET d == D IN Emit([rows |-> rows, size |-> size, level |-> d.level, counts |-> d.counts, q |-> IF d.n = 0 THEN <<>> ELSE [j \in 1..9 |-> d.q[j - 1]]])
=============================================================================
