------------------------------- MODULE State -------------------------------
(* state_agg / compact_state_agg (property C09).                             *)
(* A row <<time, state>> belongs to aggregate 1, 2 or 3 by its time: before  *)
(* Cuts[1], before Cuts[2], or later.  The system is in the state of the     *)
(* latest row at or before an instant.                                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Points, Rat, TLC
CONSTANTS T,             \* times are 0..T
          States,        \* a set of small integers
          CutSets,       \* candidate pairs of cut points
          MaxRows, WithNull, EmitAll, Multisets
VARIABLES rows, Cuts
vars == <<rows, Cuts>>

Init == rows = <<>> /\ Cuts \in CutSets
Feed(r) == Len(rows) < MaxRows /\ rows' = Append(rows, r) /\ UNCHANGED Cuts
After(t, s) == Multisets /\ rows # <<>> => LET z == rows[Len(rows)] IN t > z[1] \/ (t = z[1] /\ s >= z[2])
Next == \/ \E t \in 0..T, s \in States : After(t, s) /\ Feed(<<t, s>>)
        \/ WithNull /\ \E t \in {0, T} : Feed(<<t, NULL>>)
Spec == Init /\ [][Next]_vars
(* in long random behaviours most rows agree with an earlier row at the same time *)
StateAt(t) == LET q == SelectSeq(rows, LAMBDA r : r[1] = t) IN IF q = <<>> THEN NULL ELSE q[1][2]
NextRandom == Len(rows) < MaxRows /\ \E t \in {RandomElement(0..T)}, s \in {RandomElement(States)} :
                 Feed(<<t, IF StateAt(t) # NULL /\ RandomElement(1..40) > 1 THEN StateAt(t) ELSE s>>)
SpecRandom == Init /\ [][NextRandom]_vars

Bucket(t) == IF t < Cuts[1] THEN 1 ELSE IF t < Cuts[2] THEN 2 ELSE 3
RowsOf(A) == {rows[i] : i \in {j \in DOMAIN rows : Bucket(rows[j][1]) \in A /\ rows[j][2] # NULL}}
Conflict(A) == \E x \in RowsOf(A), y \in RowsOf(A) : x[1] = y[1] /\ x[2] # y[2]
Pts(A) == SetToSortSeq(RowsOf(A), LAMBDA x, y : x[1] < y[1])
Used == {a \in 1..3 : RowsOf({a}) # {}}

-----------------------------------------------------------------------------
(* Operational: [first, last, lasts, dur, tl]: durations per state and the merged time line of <<state, start, end>> *)
ZeroDur == [s \in States |-> 0]
RECURSIVE Build(_, _)
Build(p, k) ==
    IF k = 1 THEN [first |-> p[1][1], last |-> p[1][1], lasts |-> p[1][2], seen |-> {p[1][2]}, dur |-> ZeroDur, tl |-> <<<<p[1][2], p[1][1], p[1][1]>>>>]
    ELSE LET a == Build(p, k - 1)  t == p[k][1]  s == p[k][2]
             tl == [a.tl EXCEPT ![Len(a.tl)][3] = t]
         IN [a EXCEPT !.last = t, !.lasts = s, !.seen = @ \cup {s}, !.dur[a.lasts] = @ + (t - a.last),
                      !.tl = IF s = a.lasts THEN tl ELSE Append(tl, <<s, t, t>>)]
Agg(A) == LET p == Pts(A) IN Build(p, Len(p))
Merge(a, b) ==
    LET gap == b.first - a.last
        tla == [a.tl EXCEPT ![Len(a.tl)][3] = b.first]
    IN [first |-> a.first, last |-> b.last, lasts |-> b.lasts, seen |-> a.seen \cup b.seen,
        dur |-> [s \in States |-> a.dur[s] + b.dur[s] + (IF s = a.lasts THEN gap ELSE 0)],
        tl |-> IF tla[Len(tla)][1] = b.tl[1][1]
               THEN SubSeq(tla, 1, Len(tla) - 1) \o <<<<b.tl[1][1], tla[Len(tla)][2], b.tl[1][3]>>>> \o Tail(b.tl)
               ELSE tla \o b.tl]
Interp(x, s, e, p) ==
    LET y == IF p = None \/ s >= x.first THEN x
             ELSE [x EXCEPT !.first = s, !.seen = @ \cup {p.lasts}, !.dur[p.lasts] = @ + (x.first - s),
                            !.tl = IF @[1][1] = p.lasts THEN [@ EXCEPT ![1][2] = s] ELSE <<<<p.lasts, s, x.first>>>> \o @]
    IN IF e > y.last THEN [y EXCEPT !.last = e, !.dur[y.lasts] = @ + (e - y.last), !.tl[Len(y.tl)][3] = e] ELSE y
InRange(tl, st, s, e) == Sum([i \in DOMAIN tl |-> IF tl[i][1] = st THEN Max2(0, Min2(tl[i][3], e) - Max2(tl[i][2], s)) ELSE 0])
At(tl, t) == LET q == SelectSeq(tl, LAMBDA r : r[2] <= t) IN IF q = <<>> THEN NULL ELSE q[Len(q)][1]
Ans(x) == [dur |-> [s \in x.seen |-> x.dur[s]], tl |-> x.tl]

-----------------------------------------------------------------------------
(* Denotation: the state in force in each unit cell from the first to the last instant of the aggregate *)
InForce(p, t) == LET q == SelectSeq(p, LAMBDA r : r[1] <= t) IN IF q = <<>> THEN NULL ELSE q[Len(q)][2]
DDur(p, s, lo, hi) == Cardinality({k \in lo..(hi - 1) : k >= p[1][1] /\ InForce(p, k) = s})
(* time line of points p, held until `end` *)
DLine(p, end) ==
    LET starts == SelectSeq([i \in DOMAIN p |-> i], LAMBDA i : i = 1 \/ p[i][2] # p[i - 1][2])
    IN [j \in DOMAIN starts |-> <<p[starts[j]][2], p[starts[j]][1], IF j = Len(starts) THEN Max2(end, p[Len(p)][1]) ELSE p[starts[j + 1]][1]>>]
D(p, end) == [dur |-> [s \in {p[i][2] : i \in DOMAIN p} |-> DDur(p, s, p[1][1], Max2(end, p[Len(p)][1]))], tl |-> DLine(p, end)]
(* points seen from a window start with the previous aggregate's last state *)
WithPrev(p, q, s) == IF q # <<>> /\ s < p[1][1] THEN <<<<s, q[Len(q)][2]>>>> \o p ELSE p

-----------------------------------------------------------------------------
OK(A) == RowsOf(A) # {} /\ ~Conflict(A)
Windows == IF MaxRows <= 4 THEN {<<s, e>> \in (0..(T + 1)) \X (0..(T + 2)) : s <= e}
           ELSE {<<Cuts[1], Cuts[2]>>, <<0, Cuts[2] + 2>>, <<Cuts[1] + 1, Cuts[2] - 1>>, <<Cuts[1] - 1, T + 3>>, <<Cuts[2], Cuts[2]>>, <<Cuts[1] + 2, Cuts[1] + 5>>}
(* interpolation of aggregate 2 over window w, with (u) or without aggregate 1 before it *)
IWin == {w \in Windows : RowsOf({1}) # {} => w[1] >= Pts({1})[Len(Pts({1}))][1]}
IQ(u) == IF u THEN Pts({1}) ELSE <<>>
Uses == IF RowsOf({1}) = {} \/ Conflict({1}) THEN {FALSE} ELSE {TRUE, FALSE}

Refines == (EmitAll \/ Len(rows) = MaxRows) =>
    /\ \A A \in {{1}, {2}, {3}, {1, 2}, {1, 2, 3}} : OK(A) =>
          LET x == Agg(A)  p == Pts(A)
          IN /\ Ans(x) = D(p, x.last)
             /\ \A s \in States, w \in Windows : InRange(x.tl, s, w[1], w[2]) = DDur(p, s, w[1], Min2(w[2], x.last))
             /\ \A t \in 0..(T + 1) : At(x.tl, t) = InForce(p, t)
    /\ (OK({1}) /\ OK({2})) => Merge(Agg({1}), Agg({2})) = Agg({1, 2})
    /\ (OK({1}) /\ OK({2}) /\ OK({3})) => Merge(Merge(Agg({1}), Agg({2})), Agg({3})) = Agg({1, 2, 3})
    /\ OK({2}) => \A w \in IWin, u \in Uses :
          LET x == Interp(Agg({2}), w[1], w[2], IF u THEN Agg({1}) ELSE None)
          IN Ans(x) = D(WithPrev(Pts({2}), IQ(u), w[1]), w[2])

PairsOf(f) == SetToSeq({<<s, f[s]>> : s \in DOMAIN f})
EAns(a) == [dur |-> PairsOf(a.dur), tl |-> a.tl]
ECase(A) == LET p == Pts(A) IN
    [A |-> SetToSortSeq(A, <), conflict |-> Conflict(A),
     x |-> IF Conflict(A) THEN <<>> ELSE <<EAns(D(p, p[Len(p)][1]))>>,
     at |-> IF Conflict(A) THEN <<>> ELSE [t \in 1..(T + 2) |-> InForce(p, t - 1)],
     win |-> IF Conflict(A) THEN <<>> ELSE SetToSeq({[w |-> w, d |-> PairsOf([s \in States |-> DDur(p, s, w[1], Min2(w[2], p[Len(p)][1]))])] : w \in Windows})]
EmitCase == (Used # {} /\ (EmitAll \/ Len(rows) = MaxRows)) =>
    Emit([rows |-> rows, cuts |-> Cuts, tmax |-> T,
          single |-> SetToSeq({ECase({a}) : a \in Used}), roll |-> ECase(Used),
          interp |-> IF ~OK({2}) THEN <<>> ELSE
             SetToSeq({[u |-> u, w |-> w, f |-> Pts({2})[1][1], l |-> Pts({2})[Len(Pts({2}))][1],
                        x |-> LET p == WithPrev(Pts({2}), IQ(u), w[1]) IN EAns(D(p, w[2])),
                        d |-> LET p == WithPrev(Pts({2}), IQ(u), w[1]) IN PairsOf([s \in States |-> DDur(p, s, w[1], w[2])])] : u \in Uses, w \in IWin})])
=============================================================================
