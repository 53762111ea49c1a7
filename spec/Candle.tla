------------------------------ MODULE Candle ------------------------------
(* candlestick_agg, candlestick and their rollup (property C11).            *)
(* An item is <<group, time, open, high, low, close, volume>>; the groups in *)
(* BarGroups consist of one candlestick(...) value, the others are ticks     *)
(* (open = high = low = close) aggregated by candlestick_agg.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Rat, Points, TLC
CONSTANTS Times, Prices, Vols, Groups, BarGroups, MaxRows, WithNull, EmitAll
VARIABLES rows
vars == <<rows>>

Tick(g, t, p, v) == <<g, t, p, p, p, p, v>>
TickSet == {Tick(g, t, p, v) : g \in (Groups \ BarGroups), t \in Times, p \in Prices, v \in Vols}
           \cup (IF WithNull THEN {Tick(1, NULL, 1, 1), Tick(1, 1, NULL, 1)} ELSE {})
Init == rows = <<>>
Feed(r) == Len(rows) < MaxRows /\ rows' = Append(rows, r)
Next == \E r \in TickSet : Feed(r)
Spec == Init /\ [][Next]_vars
BarFree == {g \in BarGroups : \A i \in DOMAIN rows : rows[i][1] # g}
NextRandom == /\ Len(rows) < MaxRows
              /\ \/ Feed(Tick(RandomElement(Groups \ BarGroups), RandomElement(Times), RandomElement(Prices), RandomElement(Vols)))
                 \/ /\ BarFree # {}
                    /\ \E l \in {RandomElement(Prices)} : \E h \in {RandomElement({p \in Prices : p >= l})} :
                       Feed(<<RandomElement(BarFree), RandomElement(Times), RandomElement(l..h), h, l, RandomElement(l..h), RandomElement(Vols)>>)
SpecRandom == Init /\ [][NextRandom]_vars

Used(q) == SelectSeq(q, LAMBDA r : r[2] # NULL /\ r[3] # NULL)
OfGroup(g) == SelectSeq(Used(rows), LAMBDA r : r[1] = g)
Ticks == SelectSeq(Used(rows), LAMBDA r : r[1] \notin BarGroups)

-----------------------------------------------------------------------------
(* Operational: the candlestick of an item, and merging one candlestick after another *)
Typical(r) == Rt(r[4] + r[5] + r[6], 3)
Of(r) == [o |-> r[3], ot |-> r[2], h |-> r[4], ht |-> r[2], l |-> r[5], lt |-> r[2], c |-> r[6], ct |-> r[2],
          vol |-> IF r[7] = NULL THEN None ELSE RI(r[7]), vw |-> IF r[7] = NULL THEN None ELSE RMul(RI(r[7]), Typical(r))]
Merge(a, b) == [o |-> IF b.ot < a.ot THEN b.o ELSE a.o, ot |-> IF b.ot < a.ot THEN b.ot ELSE a.ot,
                h |-> IF b.h > a.h THEN b.h ELSE a.h, ht |-> IF b.h > a.h THEN b.ht ELSE a.ht,
                l |-> IF b.l < a.l THEN b.l ELSE a.l, lt |-> IF b.l < a.l THEN b.lt ELSE a.lt,
                c |-> IF b.ct > a.ct THEN b.c ELSE a.c, ct |-> IF b.ct > a.ct THEN b.ct ELSE a.ct,
                vol |-> IF a.vol = None \/ b.vol = None THEN None ELSE RAdd(a.vol, b.vol),
                vw |-> IF a.vol = None \/ b.vol = None THEN None ELSE RAdd(a.vw, b.vw)]
RECURSIVE FoldTo(_, _)
FoldTo(q, k) == IF k = 1 THEN Of(q[1]) ELSE Merge(FoldTo(q, k - 1), Of(q[k]))
Fold(q) == IF q = <<>> THEN <<>> ELSE FoldTo(q, Len(q))
(* rolling up per-group candlesticks, empty groups (NULL) skipped *)
GroupSeq == SetToSortSeq({g \in Groups : OfGroup(g) # <<>>}, <)
RECURSIVE RollTo(_, _)
RollTo(gs, k) == IF k = 1 THEN Fold(OfGroup(gs[1])) ELSE Merge(RollTo(gs, k - 1), Fold(OfGroup(gs[k])))
Roll == IF GroupSeq = <<>> THEN <<>> ELSE RollTo(GroupSeq, Len(GroupSeq))
Ans(a) == [o |-> a.o, ot |-> a.ot, h |-> a.h, ht |-> a.ht, l |-> a.l, lt |-> a.lt, c |-> a.c, ct |-> a.ct,
           vol |-> a.vol, vwap |-> IF a.vol = None \/ a.vol[1] <= 0 THEN None ELSE RDiv(a.vw, a.vol)]

-----------------------------------------------------------------------------
(* Denotation over a sequence of items in feeding order *)
Best(q, better(_, _)) == CHOOSE i \in DOMAIN q : /\ \A j \in DOMAIN q : ~better(q[j], q[i])
                                                 /\ \A j \in DOMAIN q : j < i => better(q[i], q[j])
D(q) == IF q = <<>> THEN <<>> ELSE
    LET first == q[Best(q, LAMBDA a, b : a[2] < b[2])]
        last == q[Best(q, LAMBDA a, b : a[2] > b[2])]
        high == q[Best(q, LAMBDA a, b : a[4] > b[4])]
        low == q[Best(q, LAMBDA a, b : a[5] < b[5])]
        missing == \E i \in DOMAIN q : q[i][7] = NULL
        vol == Sum([i \in DOMAIN q |-> q[i][7]])
    IN [o |-> first[3], ot |-> first[2], h |-> high[4], ht |-> high[2], l |-> low[5], lt |-> low[2], c |-> last[6], ct |-> last[2],
        vol |-> IF missing THEN None ELSE RI(vol),
        vwap |-> IF missing \/ vol <= 0 THEN None ELSE RDiv(RSum([i \in DOMAIN q |-> RMul(RI(q[i][7]), Rt(q[i][4] + q[i][5] + q[i][6], 3))]), RI(vol))]
Concat(gs) == FlattenSeq([i \in DOMAIN gs |-> OfGroup(gs[i])])

Refines == /\ (Ticks # <<>> => Ans(Fold(Ticks)) = D(Ticks))
           /\ (Roll # <<>> => Ans(Roll) = D(Concat(GroupSeq)))
Sane == D(Ticks) # <<>> => D(Ticks).l <= D(Ticks).o /\ D(Ticks).o <= D(Ticks).h /\ D(Ticks).ot <= D(Ticks).ht /\ D(Ticks).ht <= D(Ticks).ct
EmitCase == (EmitAll \/ Len(rows) = MaxRows) =>
    Emit([rows |-> rows, bars |-> BarGroups, direct |-> D(Ticks), roll |-> D(Concat(GroupSeq))])
=============================================================================
