-------------------------------- MODULE Hll --------------------------------
(* hyperloglog sketches (property C14).                                       *)
(* A row is <<group, lo, hi>>: the values lo..hi are fed to the group's sketch; lo > hi feeds NULL. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Points, TLC
CONSTANTS Values,       \* an interval of integers 0..k
          MaxSpan,      \* longest run of values fed by one row
          Groups, MaxRows, EmitAll,
          Buffer, Room  \* how many codes are buffered, and how many are kept, before a sketch becomes dense
VARIABLES rows
vars == <<rows>>

Init == rows = <<>>
Feed(r) == Len(rows) < MaxRows /\ rows' = Append(rows, r)
Top == CHOOSE v \in Values : \A w \in Values : w <= v
Next == \E g \in Groups, lo \in Values, k \in 0..MaxSpan : lo + k - 1 <= Top /\ Feed(<<g, lo, lo + k - 1>>)
Spec == Init /\ [][Next]_vars
NextRandom == /\ Len(rows) < MaxRows
              /\ \E lo \in {RandomElement(Values)}, k \in {RandomElement(0..MaxSpan)} :
                   Feed(<<RandomElement(Groups), lo, IF lo + k - 1 > Top THEN Top ELSE lo + k - 1>>)
SpecRandom == Init /\ [][NextRandom]_vars

-----------------------------------------------------------------------------
(* The hash of a value: a fine index 0..15 (its upper two bits are the register) and the rank of the remaining bits. *)
Fine(v) == (v * 7 + (v \div 16) * 5 + 3) % 16
Tail2(v) == 1 + ((v * 11 + 1) % 3)
Coarse(f) == f \div 4
Code(v) == <<Fine(v), IF Fine(v) % 4 = 0 THEN Tail2(v) ELSE 0>>          \* sparse code: the rank is only stored when the fine index does not tell it
Rank(c) == IF c[2] # 0 THEN 2 + c[2] ELSE IF c[1] % 4 >= 2 THEN 1 ELSE 2   \* rank of the bits behind the register index

(* Operational: buffered codes, then sorted codes one per fine index (the largest rank wins), then registers *)
Empty == [kind |-> "sparse", buf |-> {}, codes |-> {}, regs |-> <<>>]
Zero == [r \in 0..3 |-> 0]
Best(s) == {c \in s : \A d \in s : d[1] = c[1] => d[2] <= c[2]}
Flush(h) == [h EXCEPT !.buf = {}, !.codes = Best(h.codes \cup h.buf)]
Max2r(a, b) == IF a < b THEN b ELSE a
SetMax(regs, c) == [regs EXCEPT ![Coarse(c[1])] = Max2r(@, Rank(c))]
RegsOf(s) == [r \in 0..3 |-> LET q == {Rank(c) : c \in {d \in s : Coarse(d[1]) = r}} IN IF q = {} THEN 0 ELSE CHOOSE m \in q : \A x \in q : x <= m]
Dense(h) == IF h.kind = "dense" THEN h ELSE [kind |-> "dense", buf |-> {}, codes |-> {}, regs |-> RegsOf(Flush(h).codes)]
AddCode(h, c) == IF h.kind = "dense" THEN [h EXCEPT !.regs = SetMax(@, c)]
                 ELSE LET b == [h EXCEPT !.buf = @ \cup {c}]
                      IN IF Cardinality(b.buf) <= Buffer THEN b
                         ELSE LET f == Flush(b) IN IF Cardinality(f.codes) > Room THEN Dense(f) ELSE f
MergeRegs(a, b) == [r \in 0..3 |-> Max2r(a[r], b[r])]
Merge(a, b) == IF a.kind = "sparse" /\ b.kind = "sparse"
               THEN FoldLeft(AddCode, a, SetToSeq(b.codes \cup b.buf))
               ELSE [Empty EXCEPT !.kind = "dense", !.regs = MergeRegs(Dense(a).regs, Dense(b).regs)]
ValuesOf(r) == {v \in Values : r[2] <= v /\ v <= r[3]}
FeedRow(h, r) == FoldLeft(LAMBDA s, v : AddCode(s, Code(v)), h, SetToSeq(ValuesOf(r)))
Fold(G) == FoldLeft(LAMBDA s, r : IF r[1] \in G THEN FeedRow(s, r) ELSE s, Empty, rows)
GroupSeq == SetToSortSeq({rows[i][1] : i \in DOMAIN rows}, <)
RollUp == IF rows = <<>> THEN Empty ELSE FoldLeft(LAMBDA s, g : Merge(s, Fold({g})), Fold({GroupSeq[1]}), Tail(GroupSeq))

-----------------------------------------------------------------------------
(* Denotation: the registers of the set of values *)
Distinct == UNION {ValuesOf(rows[i]) : i \in DOMAIN rows}
D == RegsOf({Code(v) : v \in Distinct})
(* what a sketch knows about the set: its registers, and while it is sparse the best code of every fine index *)
Knows(h) == /\ Dense(h).regs = D
            /\ h.kind = "sparse" => Flush(h).codes = Best({Code(v) : v \in Distinct})

Refines == /\ Knows(Fold(Groups)) /\ Knows(RollUp)
           /\ \A G \in SUBSET Groups : Knows(Merge(Fold(G), Fold(Groups \ G)))
(* the hash of equal values is equal, so that the sketch never depends on more than the set *)
RankOK == \A v \in Values : Rank(Code(v)) \in 1..5
NonNull == {i \in DOMAIN rows : ValuesOf(rows[i]) # {}}
EmitCase == (rows # <<>> /\ (EmitAll \/ Len(rows) = MaxRows)) =>
    Emit([rows |-> rows, distinct |-> Cardinality(Distinct),
          groups |-> [k \in DOMAIN GroupSeq |-> Cardinality(UNION {ValuesOf(rows[i]) : i \in {j \in DOMAIN rows : rows[j][1] = GroupSeq[k]}})],
          some |-> NonNull # {}])
=============================================================================
