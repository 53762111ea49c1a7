-------------------------------- MODULE Lttb --------------------------------
(* Downsampling by largest triangles: lttb and the gap-preserving gp_lttb (property C20).                *)
(* A row is <<time, value>>, either possibly NULL; rows are fed in sequence order and keep equal times.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Points, TLC
CONSTANTS Times, Vals, Resolutions,
          Gaps,          \* gap sizes of gp_lttb; 0 stands for the default: range / resolution
          MaxRows, EmitAll,
          MaxTies        \* results are a set: exactly tied triangles are both allowed, up to so many results
VARIABLES rows, res, gap
vars == <<rows, res, gap>>

Init == rows = <<>> /\ res \in Resolutions /\ gap \in Gaps
Feed(t, v) == Len(rows) < MaxRows /\ rows' = Append(rows, <<t, v>>) /\ UNCHANGED <<res, gap>>
Next == \E t \in Times, v \in Vals : Feed(t, v)
Spec == Init /\ [][Next]_vars
NextRandom == Len(rows) < MaxRows /\ Feed(RandomElement(Times), RandomElement(Vals))
SpecRandom == Init /\ [][NextRandom]_vars

-----------------------------------------------------------------------------
(* the points: usable rows ordered by time, equal times in the order fed *)
Us == Usable(rows)
Pts == LET order == SetToSortSeq(DOMAIN Us, LAMBDA i, j : Us[i][1] < Us[j][1] \/ (Us[i][1] = Us[j][1] /\ i < j))
       IN [k \in DOMAIN order |-> Us[order[k]]]

Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a < b THEN b ELSE a

(* n points, k of them kept: bucket i (0..k-3) of the inner points is Cut(n, k, i) .. Cut(n, k, i+1) - 1 *)
Cut(n, k, i) == Least(n + 1, (i * (n - 2)) \div (k - 2) + 2)
Bucket(n, k, i) == Cut(n, k, i) .. Cut(n, k, i + 1) - 1
Following(n, k, i) == Cut(n, k, i + 1) .. Cut(n, k, i + 2) - 1
(* twice the triangle between a, b and the mean of the following bucket, times that bucket's size *)
Mean(p, i, k) == LET nx == SubSeq(p, Cut(Len(p), k, i + 1), Cut(Len(p), k, i + 2) - 1)
                 IN FoldLeft(LAMBDA m, x : <<m[1] + 1, m[2] + x[1], m[3] + x[2]>>, <<0, 0, 0>>, nx)
AreaTo(p, a, b, m) ==
    LET c == m[1] st == m[2] sv == m[3]
    IN Abs((c * p[a][1] - st) * (p[b][2] - p[a][2]) - (p[a][1] - p[b][1]) * (sv - c * p[a][2]))

Area(p, a, b, i, k) == AreaTo(p, a, b, Mean(p, i, k))

(* Operational: bucket by bucket, the point with the largest triangle after the last one picked *)
Best(p, a, i, k) == LET mean == Mean(p, i, k)
                        area == [b \in Bucket(Len(p), k, i) |-> AreaTo(p, a, b, mean)]
                        m == MaxOf({area[b] : b \in DOMAIN area})
                    IN {b \in DOMAIN area : area[b] = m}
RECURSIVE Walk(_, _, _, _)
Walk(p, k, i, S) == IF i > k - 3 \/ Cardinality(S) > MaxTies THEN S
                    ELSE Walk(p, k, i + 1, UNION {{Append(s, b) : b \in Best(p, s[Len(s)], i, k)} : s \in S})
(* the selections allowed for points p and k kept points; more than MaxTies of them: "many" is left to the structure laws *)
Picks(p, k) == IF k = 0 \/ k >= Len(p) THEN {[i \in DOMAIN p |-> i]}
               ELSE {Append(s, Len(p)) : s \in Walk(p, k, 0, {<<1>>})}

(* Denotation: what it means to be such a selection *)
IsPick(p, k, s) ==
    IF k = 0 \/ k >= Len(p) THEN s = [i \in DOMAIN p |-> i]
    ELSE /\ Len(s) = k /\ s[1] = 1 /\ s[k] = Len(p)
         /\ \A i \in 0..k - 3 : /\ s[i + 2] \in Bucket(Len(p), k, i)
                                /\ \A b \in Bucket(Len(p), k, i) : Area(p, s[i + 1], b, i, k) <= Area(p, s[i + 1], s[i + 2], i, k)
(* the buckets partition the inner points and none is empty, whatever the numbers *)
Partition(n, k) == /\ Cut(n, k, 0) = 2 /\ Cut(n, k, k - 2) = n
                   /\ \A i \in 0..k - 3 : Bucket(n, k, i) # {} /\ Following(n, k, i) # {}
Chosen(p, k) == IF k = 0 \/ k >= Len(p) THEN {[i \in DOMAIN p |-> i]}
                ELSE {s \in [1..k -> DOMAIN p] : IsPick(p, k, s)}
Final == rows # <<>> /\ (EmitAll \/ Len(rows) = MaxRows)
Refines == Final => LET p == Pts IN \A k \in (IF Len(p) <= 6 THEN {0} \cup 2..Len(p) + 1 ELSE {res}) :
             /\ (k > 2 /\ k < Len(p)) => Partition(Len(p), k)
             /\ \A s \in Picks(p, k) : \A i \in 1..Len(s) - 1 : s[i] < s[i + 1]
             /\ (Len(p) <= 6 /\ Cardinality(Picks(p, k)) <= MaxTies) => Picks(p, k) = Chosen(p, k)

-----------------------------------------------------------------------------
(* gp_lttb: runs of points without a gap, each downsampled by itself *)
IsGap(p, i) == IF gap > 0 THEN p[i + 1][1] - p[i][1] > gap
               ELSE (p[i + 1][1] - p[i][1]) * res > p[Len(p)][1] - p[1][1]
Ends(p) == {i \in DOMAIN p : i = Len(p) \/ IsGap(p, i)}
RunsOf(p) == LET e == SetToSortSeq(Ends(p), <) IN [r \in DOMAIN e |-> <<IF r = 1 THEN 1 ELSE e[r - 1] + 1, e[r]>>]
Size(r) == r[2] - r[1] + 1
Needed(r) == IF Size(r) = 1 THEN 1 ELSE 2
RECURSIVE SumNeeded(_)
SumNeeded(rs) == IF rs = <<>> THEN 0 ELSE Needed(Head(rs)) + SumNeeded(Tail(rs))
RECURSIVE SumSize(_)
SumSize(rs) == IF rs = <<>> THEN 0 ELSE Size(Head(rs)) + SumSize(Tail(rs))
(* how many points each run is given: its ends, and its share of what is left after all ends *)
RECURSIVE Shares(_, _)
Shares(rs, left) ==
    IF rs = <<>> THEN <<>>
    ELSE LET r == Head(rs)
             give == IF Len(rs) = 1 THEN (IF Size(r) = 1 THEN 1 ELSE Most(left, 2))
                     ELSE IF Size(r) = 1 THEN 1
                     ELSE IF left <= SumNeeded(rs) \/ Size(r) = 2 THEN 2
                     ELSE ((left - SumNeeded(rs)) * (Size(r) - 2)) \div (SumSize(rs) - SumNeeded(rs)) + 2
         IN <<give>> \o Shares(Tail(rs), left - give)
SubPoints(p, r) == SubSeq(p, r[1], r[2])
Shift(s, d) == [i \in DOMAIN s |-> s[i] + d]
RECURSIVE Joined(_, _, _)
Joined(p, rs, sh) == IF rs = <<>> THEN {<<>>}
                     ELSE LET a == {Shift(s, rs[1][1] - 1) : s \in Picks(SubPoints(p, rs[1]), sh[1])}
                              b == Joined(p, Tail(rs), Tail(sh))
                          IN IF Cardinality(a) * Cardinality(b) > 2 * MaxTies THEN {<<>>} ELSE {x \o y : x \in a, y \in b}
GapPicks(p) == IF p = <<>> THEN {} ELSE Joined(p, RunsOf(p), Shares(RunsOf(p), res))

GapLaws == Final => LET p == Pts IN (p # <<>> /\ res > 2) =>       \* smaller resolutions are refused
    LET rs == RunsOf(p)
        sh == Shares(rs, res)
        kept == [r \in DOMAIN rs |-> Least(sh[r], Size(rs[r]))]
    IN /\ \A r \in DOMAIN rs : sh[r] >= Needed(rs[r])                         \* every run keeps its ends, so every gap stays
       /\ FoldLeft(+, 0, kept) <= Most(res, SumNeeded(rs))                  \* and the resolution is met unless the ends alone exceed it
       /\ Len(rs) = 1 => GapPicks(p) = (IF Cardinality(Picks(p, res)) <= 2 * MaxTies THEN Picks(p, res) ELSE {<<>>})
       /\ \A s \in GapPicks(p) : s # <<>> => /\ \A i \in 1..Len(s) - 1 : s[i] < s[i + 1]
                                             /\ \A i \in 1..Len(p) - 1 : IsGap(p, i) => Contains(s, i) /\ Contains(s, i + 1)

-----------------------------------------------------------------------------
Limited(S) == IF Cardinality(S) > MaxTies THEN {} ELSE S
EmitCase == Final =>
    LET p == Pts IN
    Emit([rows |-> rows, pts |-> p, res |-> res, gap |-> gap,
          picks |-> SetToSeq(Limited(Picks(p, res))),
          runs |-> IF p = <<>> THEN <<>> ELSE RunsOf(p), shares |-> IF p = <<>> THEN <<>> ELSE Shares(RunsOf(p), res),
          gappicks |-> SetToSeq(Limited(GapPicks(p)))])
=============================================================================
