----------------------------- MODULE Heartbeat -----------------------------
(* heartbeat_agg: liveness as a partition of time (property C10).            *)
(* Time is cut into unit cells [k, k+1).  A row <<a, t>> is a heartbeat at   *)
(* time t fed to aggregate a, whose range is Rg[a] = <<start, end>>.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Points, Rat, TLC
CONSTANTS RangeSets,   \* candidate tuples of ranges
          Lens,        \* liveness intervals
          Batch,       \* how many heartbeats are buffered before they are merged
          MaxRows, EmitAll,
          Multisets    \* TRUE: enumerate multisets of heartbeats instead of sequences (the driver shuffles them)
VARIABLES rows, Rg, L
vars == <<rows, Rg, L>>

Init == /\ rows = <<>> /\ Rg \in RangeSets /\ L \in Lens
Feed(r) == Len(rows) < MaxRows /\ rows' = Append(rows, r) /\ UNCHANGED <<Rg, L>>
After(a, t) == Multisets /\ rows # <<>> => LET z == rows[Len(rows)] IN a > z[1] \/ (a = z[1] /\ t >= z[2])
Next == \E a \in DOMAIN Rg : \E t \in Rg[a][1]..(Rg[a][2] - 1) : After(a, t) /\ Feed(<<a, t>>)
Spec == Init /\ [][Next]_vars
NextRandom == Len(rows) < MaxRows /\ \E a \in {RandomElement(DOMAIN Rg)} : Feed(<<a, RandomElement(Rg[a][1]..(Rg[a][2] - 1))>>)
SpecRandom == Init /\ [][NextRandom]_vars

Beats(a) == LET q == SelectSeq(rows, LAMBDA r : r[1] = a) IN [i \in DOMAIN q |-> q[i][2]]
Used == {a \in DOMAIN Rg : Beats(a) # <<>>}

-----------------------------------------------------------------------------
(* Operational: sorted disjoint intervals, merged when they touch; an aggregate is [s, e, last, iv] *)
Sorted(q) == SortSeq(q, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
RECURSIVE Glue(_, _)
Glue(acc, q) == IF q = <<>> THEN acc
                ELSE IF acc # <<>> /\ q[1][1] <= acc[Len(acc)][2]
                     THEN Glue([acc EXCEPT ![Len(acc)][2] = Max2(@, q[1][2])], Tail(q))
                     ELSE Glue(Append(acc, q[1]), Tail(q))
Merge(p, q) == Glue(<<>>, Sorted(p \o q))
Live(hs) == Glue(<<>>, Sorted([i \in DOMAIN hs |-> <<hs[i], hs[i] + L>>]))
RECURSIVE Absorb(_, _)
Absorb(iv, hs) == IF hs = <<>> THEN iv
                  ELSE LET k == Min2(Batch, Len(hs)) IN Absorb(Merge(iv, Live(SubSeq(hs, 1, k))), SubSeqFrom(hs, k + 1))
MaxOf(hs) == CHOOSE x \in ToSet(hs) : \A y \in ToSet(hs) : y <= x
CutEnd(iv, e) == IF iv # <<>> /\ iv[Len(iv)][2] > e THEN [iv EXCEPT ![Len(iv)][2] = e] ELSE iv
Agg(a) == [s |-> Rg[a][1], e |-> Rg[a][2], last |-> MaxOf(Beats(a)), iv |-> CutEnd(Absorb(<<>>, Beats(a)), Rg[a][2])]
NoBeat == 0 - 1000
Extend(x, s, e) == [s |-> s, e |-> e, last |-> x.last,
                    iv |-> IF x.e < e /\ x.last + L > x.e THEN [x.iv EXCEPT ![Len(x.iv)][2] = Min2(x.last + L, e)] ELSE x.iv]
Roll(x, y) == LET s == Min2(x.s, y.s)  e == Max2(x.e, y.e)
              IN [s |-> s, e |-> e, last |-> Max2(x.last, y.last), iv |-> CutEnd(Merge(Extend(x, s, e).iv, Extend(y, s, e).iv), e)]
Interp(x, p) == LET pe == Min2(p.last + L, x.e)
                IN IF pe <= x.s THEN x ELSE [x EXCEPT !.iv = Merge(<<<<x.s, pe>>>>, @)]
(* trimming to [s, e]: the last heartbeat is known exactly unless it lies at or beyond e inside a live interval *)
Trim(x, s, e) ==
    LET clipped == SelectSeq([i \in DOMAIN x.iv |-> <<Max2(x.iv[i][1], s), Min2(x.iv[i][2], e)>>], LAMBDA v : v[1] < v[2])
        before == SelectSeq(x.iv, LAMBDA v : v[1] < e)
        last == IF x.last < e THEN x.last
                ELSE IF before = <<>> THEN NoBeat
                ELSE Min2(e, before[Len(before)][2] - L)
    IN [s |-> s, e |-> e, last |-> last, iv |-> clipped]
Gaps(x) == Glue(<<>>, SelectSeq([i \in 1..(Len(x.iv) + 1) |-> <<IF i = 1 THEN x.s ELSE x.iv[i - 1][2], IF i > Len(x.iv) THEN x.e ELSE x.iv[i][1]>>], LAMBDA v : v[1] < v[2]))
Total(iv) == Sum([i \in DOMAIN iv |-> iv[i][2] - iv[i][1]])
Ans(x) == [s |-> x.s, e |-> x.e, live |-> x.iv, dead |-> Gaps(x), up |-> Total(x.iv), down |-> x.e - x.s - Total(x.iv)]

-----------------------------------------------------------------------------
(* Denotation: a cell is live iff some heartbeat lies at most L before it *)
LiveCells(hs) == UNION {hs[i]..(hs[i] + L - 1) : i \in DOMAIN hs}
(* maximal runs of a set of cells within s..e-1 *)
Runs(s, e, on) ==
    LET begins == {k \in on : (k - 1) \notin on}
        ends == {k + 1 : k \in {j \in on : (j + 1) \notin on}}
        b == SetToSortSeq(begins, <)  z == SetToSortSeq(ends, <)
    IN [i \in DOMAIN b |-> <<b[i], z[i]>>]
D(hs, s, e) ==
    LET on == LiveCells(hs) \cap (s..(e - 1))
        off == (s..(e - 1)) \ on
    IN [s |-> s, e |-> e, live |-> Runs(s, e, on), dead |-> Runs(s, e, off), up |-> Cardinality(on), down |-> Cardinality(off)]

-----------------------------------------------------------------------------
Ordered(a, b) == Rg[a][2] <= Rg[b][1]
AllBeats(as) == FlattenSeq([i \in DOMAIN as |-> Beats(as[i])])
UsedSeq == SetToSortSeq(Used, <)
RECURSIVE RollTo(_)
RollTo(k) == IF k = 1 THEN Agg(UsedSeq[1]) ELSE Roll(RollTo(k - 1), Agg(UsedSeq[k]))
(* trim windows: all of them in a small scope, otherwise those that begin and end where something changes *)
Edges(a) == IF MaxRows <= 6 THEN Rg[a][1]..Rg[a][2]
            ELSE ({Rg[a][1], Rg[a][2]} \cup UNION {{Beats(a)[i], Beats(a)[i] + 1, Beats(a)[i] + L} : i \in DOMAIN Beats(a)}) \cap (Rg[a][1]..Rg[a][2])
Windows(a) == {<<s, e>> \in Edges(a) \X Edges(a) : s < e}
MinS == CHOOSE x \in {Rg[a][1] : a \in Used} : \A a \in Used : x <= Rg[a][1]
MaxE == CHOOSE x \in {Rg[a][2] : a \in Used} : \A a \in Used : x >= Rg[a][2]

Refines == (EmitAll \/ Len(rows) = MaxRows) =>
    /\ \A a \in Used : /\ Ans(Agg(a)) = D(Beats(a), Rg[a][1], Rg[a][2])
                       /\ \A w \in Windows(a) : Ans(Trim(Agg(a), w[1], w[2])) = D(Beats(a), w[1], w[2])
                       /\ \A m \in Edges(a) \ {Rg[a][1], Rg[a][2]} :
                             LET x == Trim(Agg(a), Rg[a][1], m)  y == Trim(Agg(a), m, Rg[a][2])
                             IN /\ Ans(Roll(x, y)) = Ans(Agg(a))      \* the two halves make the whole again
                                /\ Ans(Interp(y, x)) = Ans(y)
    /\ \A a \in Used, b \in Used : Ordered(a, b) =>
          /\ Ans(Interp(Agg(b), Agg(a))) = D(Beats(a) \o Beats(b), Rg[b][1], Rg[b][2])
          /\ \A w \in Windows(a) : w[2] = Rg[a][2] => Interp(Agg(b), Trim(Agg(a), w[1], w[2])) = Interp(Agg(b), Agg(a))
    /\ Used # {} => Ans(RollTo(Len(UsedSeq))) = D(AllBeats(UsedSeq), MinS, MaxE)

EmitCase == (Used # {} /\ (EmitAll \/ Len(rows) = MaxRows)) =>
    Emit([rows |-> rows, rg |-> Rg, len |-> L,
          single |-> SetToSeq({[a |-> a, x |-> D(Beats(a), Rg[a][1], Rg[a][2]), trims |-> SetToSeq({D(Beats(a), w[1], w[2]) : w \in Windows(a)})] : a \in Used}),
          interp |-> SetToSeq({[p |-> p[1], a |-> p[2], x |-> D(Beats(p[1]) \o Beats(p[2]), Rg[p[2]][1], Rg[p[2]][2])] : p \in {q \in Used \X Used : Ordered(q[1], q[2])}}),
          roll |-> D(AllBeats(UsedSeq), MinS, MaxE)])
=============================================================================
