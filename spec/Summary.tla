------------------------------- MODULE Summary -------------------------------
(* An abstract summary of rows <<time, value, key>>, with one field for every way in which the aggregates of the  *)
(* extension summarize: counts and totals (stats_agg, counters), the first and the last point (counters, candles), *)
(* the greatest values (max_n), what was seen at all (hyperloglog, frequencies), and merging of two summaries.     *)
(* Merging is associative and commutative with the empty summary as its neutral element; Laws is checked by TLC,   *)
(* and TwoStep, RollTree and Window rest on it.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Points
TopN == 2
Empty == [n |-> 0, total |-> 0, first |-> <<>>, last |-> <<>>, keys |-> {}, top |-> <<>>]
RowSum(r) == IF r[2] = NULL THEN [Empty EXCEPT !.keys = {r[3]}]
             ELSE [n |-> 1, total |-> r[2], first |-> <<r[1], r[2]>>, last |-> <<r[1], r[2]>>, keys |-> {r[3]}, top |-> <<r[2]>>]
Upto(q, k) == IF Len(q) <= k THEN q ELSE SubSeq(q, 1, k)
Merge(a, b) == [n |-> a.n + b.n, total |-> a.total + b.total,
                first |-> IF a.first = <<>> THEN b.first ELSE IF b.first = <<>> THEN a.first ELSE IF b.first[1] < a.first[1] THEN b.first ELSE a.first,
                last |-> IF a.last = <<>> THEN b.last ELSE IF b.last = <<>> THEN a.last ELSE IF b.last[1] > a.last[1] THEN b.last ELSE a.last,
                keys |-> a.keys \cup b.keys, top |-> Upto(SortSeq(a.top \o b.top, >), TopN)]
MergeAll(q) == FoldLeft(Merge, Empty, q)
(* what a bag of rows means, said without merging *)
Denotes(rows) == LET u == SelectSeq(rows, LAMBDA r : r[2] # NULL)
                     at(better(_, _)) == IF u = <<>> THEN <<>> ELSE LET r == u[CHOOSE i \in DOMAIN u : \A j \in DOMAIN u : j = i \/ better(u[i][1], u[j][1])] IN <<r[1], r[2]>>
                 IN [n |-> Len(u), total |-> FoldLeft(+, 0, [i \in DOMAIN u |-> u[i][2]]), first |-> at(<), last |-> at(>),
                     keys |-> {rows[i][3] : i \in DOMAIN rows}, top |-> Upto(SortSeq([i \in DOMAIN u |-> u[i][2]], >), TopN)]
Laws(S) == /\ \A a \in S : Merge(a, Empty) = a /\ Merge(Empty, a) = a
           /\ \A a, b \in S : Merge(a, b) = Merge(b, a)
           /\ \A a, b, c \in S : Merge(Merge(a, b), c) = Merge(a, Merge(b, c))
=============================================================================
