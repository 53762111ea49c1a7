------------------------------- MODULE Cms -------------------------------
(* count_min_sketch (property C13): d rows of w counters; every hash function is possible. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Points, TLC
CONSTANTS Values, W, D, MaxRows
VARIABLES rows, h
vars == <<rows, h>>
(* one value is never fed *)
Ghost == CHOOSE v \in Values : \A w \in Values : w <= v
Init == rows = <<>> /\ h \in [1..D -> [Values -> 0..(W - 1)]]
Next == \E v \in (Values \ {Ghost}) \cup {NULL} : Len(rows) < MaxRows /\ rows' = Append(rows, v) /\ UNCHANGED h
Spec == Init /\ [][Next]_vars

Zero == [i \in 1..D |-> [j \in 0..(W - 1) |-> 0]]
Add(s, v) == IF v = NULL THEN s ELSE [i \in 1..D |-> [s[i] EXCEPT ![h[i][v]] = @ + 1]]
Combine(a, b) == [i \in 1..D |-> [j \in 0..(W - 1) |-> a[i][j] + b[i][j]]]
Estimate(s, v) == LET e == {s[i][h[i][v]] : i \in 1..D} IN CHOOSE x \in e : \A y \in e : x <= y
FoldOf(q) == FoldLeft(Add, Zero, q)

Count(v) == Cardinality({i \in DOMAIN rows : rows[i] = v})
N == Cardinality({i \in DOMAIN rows : rows[i] # NULL})
Collides(v) == \A i \in 1..D : \E x \in {rows[k] : k \in DOMAIN rows} \ {NULL, v} : h[i][x] = h[i][v]
Refines == \A k \in 0..Len(rows) :
    LET s == Combine(FoldOf(SubSeq(rows, 1, k)), FoldOf(SubSeq(rows, k + 1, Len(rows))))
    IN /\ s = FoldOf(rows)
       /\ \A v \in Values : Count(v) <= Estimate(s, v) /\ Estimate(s, v) <= N /\ (~Collides(v) => Estimate(s, v) = Count(v))
=============================================================================
