------------------------------- MODULE NMost -------------------------------
(* min_n / max_n, their _by forms and their rollups (property C12).          *)
(* A row is <<group, value>>; its position in rows is its accompanying data. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Points, TLC
CONSTANTS Values, Groups, Ns, MaxRows, EmitAll
VARIABLES rows, n
vars == <<rows, n>>

Init == rows = <<>> /\ n \in Ns
Feed(r) == Len(rows) < MaxRows /\ rows' = Append(rows, r) /\ UNCHANGED n
Next == \E g \in Groups, v \in Values : Feed(<<g, v>>)
Spec == Init /\ [][Next]_vars
NextRandom == Len(rows) < MaxRows /\ Feed(<<RandomElement(Groups), RandomElement(Values)>>)
SpecRandom == Init /\ [][NextRandom]_vars

-----------------------------------------------------------------------------
(* Operational: a bounded collection of the n smallest keys.  The key of an item is its value (min_n) or the negated value (max_n); *)
(* an item is <<key, row>>.  A full collection drops its largest key for a smaller newcomer and ignores any other newcomer.          *)
Largest(s) == CHOOSE x \in s : \A y \in s : y[1] < x[1] \/ (y[1] = x[1] /\ y[2] <= x[2])
Insert(s, x) == IF Cardinality(s) < n THEN s \cup {x}
                ELSE IF x[1] < Largest(s)[1] THEN (s \ {Largest(s)}) \cup {x} ELSE s
RECURSIVE FoldTo(_, _)
FoldTo(q, k) == IF k = 0 THEN {} ELSE Insert(FoldTo(q, k - 1), q[k])
Fold(q) == FoldTo(q, Len(q))
Sorted(s) == SetToSortSeq(s, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
(* rollup reads a finished (sorted) collection and stops at the first key that a full collection does not want *)
RECURSIVE RollIn(_, _)
RollIn(s, q) == IF q = <<>> THEN s
                ELSE IF Cardinality(s) >= n /\ ~(q[1][1] < Largest(s)[1]) THEN s
                ELSE RollIn(Insert(s, q[1]), Tail(q))
Combine(a, b) == LET q == SetToSeq(b) IN FoldLeft(Insert, a, q)

Items(sign, g) == LET all == [i \in DOMAIN rows |-> <<sign * rows[i][2], i>>]
                  IN SelectSeq(all, LAMBDA x : rows[x[2]][1] \in g)
GroupSeq == SetToSortSeq({rows[i][1] : i \in DOMAIN rows}, <)
RECURSIVE RollTo(_, _)
RollTo(sign, k) == IF k = 0 THEN {} ELSE RollIn(RollTo(sign, k - 1), Sorted(Fold(Items(sign, {GroupSeq[k]}))))

-----------------------------------------------------------------------------
(* Denotation: the first n of all keys in ascending order *)
AllSorted(sign) == SortSeq([i \in DOMAIN rows |-> sign * rows[i][2]], <)
D(sign) == LET a == AllSorted(sign) IN [i \in 1..(IF Len(a) < n THEN Len(a) ELSE n) |-> sign * a[i]]
Keys(s) == LET q == Sorted(s) IN [i \in DOMAIN q |-> q[i][1]]
Neg(sign, q) == [i \in DOMAIN q |-> sign * q[i]]

Refines == \A sign \in {1, -1} :
    /\ Neg(sign, Keys(Fold(Items(sign, Groups)))) = D(sign)
    /\ Neg(sign, Keys(RollTo(sign, Len(GroupSeq)))) = D(sign)
    /\ \A G \in SUBSET Groups : Keys(Combine(Fold(Items(sign, G)), Fold(Items(sign, Groups \ G)))) = Keys(Fold(Items(sign, Groups)))
EmitCase == (rows # <<>> /\ (EmitAll \/ Len(rows) = MaxRows)) => Emit([rows |-> rows, n |-> n, min |-> D(1), max |-> D(-1)])
=============================================================================
