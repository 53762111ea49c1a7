----------------------------- MODULE Pipeline -----------------------------
(* timevectors and their pipelines (property C18).                                                       *)
(* A row is <<part, time, value>>; every part is one timevector, fed in order; the parts are rolled up.  *)
(* Values are fed as halves: n stands for n/2.  A timevector is [pts, sorted, nulls] with points         *)
(* <<time, value or None, is it NULL>>; None is not-a-number.  Elements are tuples <<kind, ...>>.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Rat, Points, TLC
CONSTANTS Parts, Times, Vals, Els, Weighted, MaxRows, MaxOps, EmitAll
VARIABLES rows, ops, tv, prev, status, exact, phase
vars == <<rows, ops, tv, prev, status, exact, phase>>

Empty == [pts |-> <<>>, sorted |-> TRUE, nulls |-> FALSE]
LastOf(s) == s[Len(s)]
NonDecreasing(s) == \A i \in 1..(Len(s) - 1) : s[i][1] <= s[i + 1][1]
HasNull(s) == \E i \in DOMAIN s : s[i][3]
HasNaN(s) == \E i \in DOMAIN s : s[i][2] = None

(* the aggregate timevector(time, value) and its rollup *)
AddRow(x, r) == IF r[2] = NULL THEN x
                ELSE [pts |-> Append(x.pts, <<r[2], IF r[3] = NULL THEN None ELSE Rt(r[3], 2), r[3] = NULL>>),
                      sorted |-> x.sorted /\ (x.pts = <<>> \/ LastOf(x.pts)[1] <= r[2]),
                      nulls |-> x.nulls \/ r[3] = NULL]
Combine(a, b) == IF a.pts = <<>> THEN b ELSE IF b.pts = <<>> THEN a
                 ELSE [pts |-> a.pts \o b.pts, nulls |-> a.nulls \/ b.nulls,
                       sorted |-> a.sorted /\ b.sorted /\ LastOf(a.pts)[1] <= b.pts[1][1]]
PartOf(p) == FoldLeft(AddRow, Empty, SelectSeq(rows, LAMBDA r : r[1] = p))
PartSeq == SetToSortSeq(Parts, <)
Whole == FoldLeft(LAMBDA x, p : Combine(x, PartOf(p)), Empty, PartSeq)

-----------------------------------------------------------------------------
(* rational functions with the meaning of the arithmetic elements *)
FloorI(r) == r[1] \div r[2]
TruncI(r) == IF r[1] >= 0 THEN r[1] \div r[2] ELSE -((-r[1]) \div r[2])
RoundI(r) == IF r[1] >= 0 THEN (2 * r[1] + r[2]) \div (2 * r[2]) ELSE -((-2 * r[1] + r[2]) \div (2 * r[2]))
SignI(r) == IF r[1] > 0 THEN 1 ELSE IF r[1] < 0 THEN -1 ELSE 0
Arith(f, x, r) ==
    CASE f = "add" -> RAdd(x, r) [] f = "sub" -> RSub(x, r) [] f = "mul" -> RMul(x, r) [] f = "div" -> RDiv(x, r)
      [] f = "mod" -> RSub(x, RMul(r, RI(TruncI(RDiv(x, r))))) [] f = "power" -> RMul(x, x)
      [] f = "abs" -> <<Abs(x[1]), x[2]>> [] f = "ceil" -> RI(-FloorI(RNeg(x))) [] f = "floor" -> RI(FloorI(x))
      [] f = "round" -> RI(RoundI(x)) [] f = "sign" -> RI(SignI(x)) [] f = "trunc" -> RI(TruncI(x))
OnVal(f(_), v) == IF v = None THEN None ELSE f(v)
MapVals(x, f(_)) == [x EXCEPT !.pts = [i \in DOMAIN x.pts |-> <<x.pts[i][1], OnVal(f, x.pts[i][2]), x.pts[i][3]>>]]
MapTimes(x, g(_)) == LET q == [i \in DOMAIN x.pts |-> <<g(x.pts[i]), x.pts[i][2], x.pts[i][3]>>]
                     IN [x EXCEPT !.pts = q, !.sorted = x.sorted /\ NonDecreasing(q)]

(* one element applied to one timevector *)
SortedPts(s) == LET o == SortSeq([i \in DOMAIN s |-> <<s[i][1], i>>], LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
                IN [k \in DOMAIN s |-> s[o[k][2]]]
Filled(a, b, k, m) ==      \* the points strictly between a and b, every k after a
    LET n == (b[1] - a[1] - 1) \div k
        at(j) == a[1] + j * k
        val(j) == CASE m = "locf" -> a[2]
                    [] m = "nearest" -> IF b[1] - at(j) >= at(j) - a[1] THEN a[2] ELSE b[2]
                    [] OTHER -> IF a[2] = None \/ b[2] = None THEN None
                                ELSE RAdd(a[2], RMul(RSub(b[2], a[2]), Rt(at(j) - a[1], b[1] - a[1])))
    IN IF b[1] - a[1] > k THEN [j \in 1..n |-> <<at(j), val(j), FALSE>>] ELSE <<>>
RECURSIVE FillAll(_, _, _)
FillAll(s, k, m) == IF Len(s) < 2 THEN s ELSE <<s[1]>> \o Filled(s[1], s[2], k, m) \o FillAll(Tail(s), k, m)

Keep(f, r, p) ==
    CASE f = "gt" -> p[2] # None /\ RLt(r, p[2]) [] f = "le" -> p[2] # None /\ RLe(p[2], r)
      [] f = "eq" -> p[2] = r [] f = "ne" -> p[2] # r [] f = "notgt" -> p[2] = None \/ RLe(p[2], r)
      [] f = "from" -> p[1] >= r [] f = "until" -> p[1] < r
Bad(x) == ~x.sorted \/ x.nulls
Step(x, e) ==
    CASE e[1] = "sort" -> [x EXCEPT !.pts = SortedPts(x.pts), !.sorted = TRUE]
      [] e[1] = "delta" -> [x EXCEPT !.pts = [i \in 1..Max2(Len(x.pts) - 1, 0) |->
                                <<x.pts[i + 1][1], IF x.pts[i][2] = None \/ x.pts[i + 1][2] = None THEN None ELSE RSub(x.pts[i + 1][2], x.pts[i][2]), FALSE>>]]
      [] e[1] = "fill" -> [x EXCEPT !.pts = FillAll(x.pts, e[2], e[3])]
      [] e[1] = "arith" -> MapVals(x, LAMBDA v : Arith(e[2], v, e[3]))
      [] e[1] = "data" -> MapVals(x, LAMBDA v : RAdd(RMul(v, <<3, 1>>), <<-1, 1>>))            \* map_data: 3 v - 1
      [] e[1] = "series" -> [pts |-> [i \in DOMAIN x.pts |-> <<x.pts[i][1] + 1, OnVal(RNeg, x.pts[i][2]), FALSE>>], nulls |-> FALSE, sorted |-> NonDecreasing(x.pts)]
      [] e[1] = "map" -> (CASE e[2] = "lin" -> MapVals(x, LAMBDA v : RAdd(RMul(v, <<2, 1>>), e[3]))
                           [] e[2] = "sq" -> MapVals(x, LAMBDA v : RMul(RAdd(v, e[3]), RAdd(v, e[3])))
                           [] e[2] = "shift" -> MapTimes(MapVals(x, RNeg), LAMBDA p : p[1] + e[3])
                           [] e[2] = "tval" -> MapTimes(x, LAMBDA p : p[1] - p[2][1]))       \* moves every point by its value
      [] e[1] = "filter" -> [x EXCEPT !.pts = SelectSeq(x.pts, LAMBDA p : Keep(e[2], e[3], p))]

Fails(x, e) == e[1] \in {"delta", "fill"} /\ (Bad(x) \/ (e[1] = "fill" /\ e[2] <= 0))
(* whether the refusal is owed to the data (and not only to a flag that kept its caution) *)
Strict(x, e) == ~NonDecreasing(x.pts) \/ HasNull(x.pts) \/ (e[1] = "fill" /\ e[2] <= 0)

Pow2 == {1, 2, 4, 8, 16, 32}
Jumps(e) == (e[1] = "arith" /\ e[2] \in {"ceil", "floor", "round", "trunc", "mod", "sign"}) \/ (e[1] = "filter" /\ e[2] \notin {"from", "until"}) \/ (e[1] = "map" /\ e[2] = "tval")
Exact(x, e) == CASE e[1] = "arith" /\ e[2] = "div" -> Abs(e[3][1]) \in Pow2
                 [] e[1] = "fill" /\ e[3] = "interpolate" -> \A i \in 1..(Len(x.pts) - 1) : x.pts[i + 1][1] - x.pts[i][1] \in Pow2 \cup {0}
                 [] OTHER -> TRUE
Small(x) == \A i \in DOMAIN x.pts : x.pts[i][2] = None \/ (Abs(x.pts[i][2][1]) <= 1500 /\ x.pts[i][2][2] <= 64)
Allowed(x, e) == /\ e[1] = "series" => x.pts # <<>>
                 /\ exact \/ ~Jumps(e)
                 /\ (e[1] = "map" /\ e[2] = "tval") => \A i \in DOMAIN x.pts : x.pts[i][2] # None /\ x.pts[i][2][2] = 1 /\ Abs(x.pts[i][2][1]) <= 30
                 /\ ~Fails(x, e) => LET y == Step(x, e) IN Small(y) /\ Len(y.pts) <= Max2(40, Len(x.pts))

-----------------------------------------------------------------------------
Init == rows = <<>> /\ ops = <<>> /\ tv = Empty /\ prev = Empty /\ status = "ok" /\ exact = TRUE /\ phase = "feed"
Feed(r) == phase = "feed" /\ Len(rows) < MaxRows /\ rows' = Append(rows, r) /\ UNCHANGED <<ops, tv, prev, status, exact, phase>>
Build == phase = "feed" /\ rows # <<>> /\ Whole.pts # <<>> /\ phase' = "run" /\ tv' = Whole /\ prev' = Whole /\ UNCHANGED <<rows, ops, status, exact>>
Apply(e) == /\ phase = "run" /\ status = "ok" /\ Len(ops) < MaxOps /\ Allowed(tv, e) = TRUE
            /\ ops' = Append(ops, e) /\ prev' = tv
            /\ IF Fails(tv, e) THEN status' = (IF Strict(tv, e) THEN "refused" ELSE "may refuse") /\ UNCHANGED <<tv, exact>>
               ELSE tv' = Step(tv, e) /\ exact' = (exact /\ Exact(tv, e)) /\ UNCHANGED status
            /\ UNCHANGED <<rows, phase>>
Next == (\E p \in Parts, t \in Times, v \in Vals : Feed(<<p, t, v>>)) \/ Build \/ (\E e \in Els : Apply(e))
Spec == Init /\ [][Next]_vars

(* random behaviours: mostly time-ordered rows; elements chosen from the list Weighted *)
LastTime == LET u == SelectSeq(rows, LAMBDA r : r[2] # NULL) IN IF u = <<>> THEN 0 ELSE LastOf(u)[2]
TopTime == CHOOSE t \in Times : \A u \in Times : u <= t
NextRandom ==
    \/ /\ phase = "feed" /\ Len(rows) < MaxRows
       /\ \E c \in {RandomElement(0..30)}, t \in {RandomElement(Times)}, v \in {RandomElement(Vals)}, k \in {RandomElement(0..4)}, p \in {RandomElement(Parts)} :
            LET w == IF c % 3 # 0 /\ v = NULL THEN 7 ELSE v
                o == IF LastTime + k > TopTime THEN TopTime ELSE LastTime + k
            IN IF rows # <<>> /\ c = 1 THEN Build
               ELSE Feed(<<IF rows = <<>> \/ c > 20 THEN p ELSE LastOf(rows)[1], IF c \in {2, 3} THEN t ELSE o, w>>)
    \/ Len(rows) = MaxRows /\ Build
    \/ /\ phase = "run" /\ status = "ok" /\ Len(ops) < MaxOps
       /\ \E i \in {RandomElement(1..Len(Weighted))} : Apply(IF Allowed(tv, Weighted[i]) THEN Weighted[i] ELSE IF i % 2 = 0 THEN <<"arith", "abs", <<0, 1>>>> ELSE <<"sort">>)
SpecRandom == Init /\ [][NextRandom]_vars
(* the same with all the rows fed at once: long series, whose parts need many bytes of NULL bits *)
FeedMany == /\ phase = "feed" /\ rows = <<>>
            /\ \E n \in {RandomElement((MaxRows \div 2)..MaxRows)}, q \in {RandomElement(1..6)} :
                 rows' = FoldLeft(LAMBDA s, i : LET c == RandomElement(0..30)  l == IF s = <<>> THEN <<1, 0, 0>> ELSE LastOf(s)  v == RandomElement(Vals) IN
                             Append(s, <<IF c = 0 THEN RandomElement(Parts) ELSE l[1], IF c = 1 THEN RandomElement(Times) ELSE Max2(l[2], 0) + RandomElement(0..2), IF v = NULL /\ c % q # 0 THEN 7 ELSE v>>), <<>>, [i \in 1..n |-> i])
            /\ UNCHANGED <<ops, tv, prev, status, exact, phase>>
NextLong == FeedMany \/ (rows # <<>> /\ Build) \/ (phase = "run" /\ NextRandom)
SpecLong == Init /\ [][NextLong]_vars

-----------------------------------------------------------------------------
(* What the parts mean together: the points of all parts one after the other, NULL times dropped *)
Denoted == LET all == FoldLeft(LAMBDA s, p : s \o SelectSeq(rows, LAMBDA r : r[1] = p /\ r[2] # NULL), <<>>, PartSeq)
           IN [i \in DOMAIN all |-> <<all[i][2], IF all[i][3] = NULL THEN None ELSE Rt(all[i][3], 2), all[i][3] = NULL>>]
BuildMeans == (phase = "run" /\ ops = <<>>) => /\ tv.pts = Denoted
                                              /\ tv.sorted = NonDecreasing(Denoted)
                                              /\ tv.nulls = HasNull(Denoted)
(* flags never promise too much *)
FlagsSound == /\ tv.sorted => NonDecreasing(tv.pts)
              /\ HasNull(tv.pts) => tv.nulls
              /\ \A i \in DOMAIN tv.pts : tv.pts[i][3] => tv.pts[i][2] = None

(* the laws of the elements *)
RangeOf(s) == {s[i] : i \in DOMAIN s}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
RECURSIVE Follows(_, _)      \* s is a subsequence of t
Follows(s, t) == IF s = <<>> THEN TRUE ELSE IF t = <<>> THEN FALSE ELSE IF s[1] = t[1] THEN Follows(Tail(s), Tail(t)) ELSE Follows(s, Tail(t))
Laws == (phase = "run" /\ ops # <<>> /\ status = "ok") =>
    LET e == LastOf(ops)
        p == prev.pts
        q == tv.pts
    IN CASE e[1] = "sort" -> /\ NonDecreasing(q) /\ Len(p) = Len(q)
                             /\ \A x \in RangeOf(p) : Count(p, x) = Count(q, x)
                             /\ \A t \in {x[1] : x \in RangeOf(p)} : SelectSeq(p, LAMBDA x : x[1] = t) = SelectSeq(q, LAMBDA x : x[1] = t)
         [] e[1] = "delta" -> /\ Len(q) = Max2(Len(p) - 1, 0)
                              /\ (p # <<>> /\ ~HasNaN(p)) => RAdd(p[1][2], RSum([i \in DOMAIN q |-> q[i][2]])) = LastOf(p)[2]
                              /\ \A i \in DOMAIN q : q[i][1] = p[i + 1][1]
         [] e[1] = "fill" -> /\ Follows(p, q) /\ NonDecreasing(q)
                             /\ \A i \in 1..(Len(q) - 1) : q[i + 1][1] - q[i][1] <= e[2]
                             /\ p # <<>> => q[1] = p[1] /\ LastOf(q) = LastOf(p)
                             /\ (e[3] # "interpolate" /\ p # <<>>) => {x[2] : x \in RangeOf(q)} \subseteq {x[2] : x \in RangeOf(p)}
                             /\ (e[3] = "interpolate" /\ p # <<>> /\ ~HasNaN(p)) =>
                                   \A i \in DOMAIN q : \E a, b \in RangeOf(p) : RLe(a[2], q[i][2]) /\ RLe(q[i][2], b[2])
         [] e[1] = "filter" -> Follows(q, p)
         [] e[1] = "series" -> Len(p) = Len(q)
         [] e[1] = "map" /\ e[2] \in {"shift", "tval"} -> Len(p) = Len(q) /\ \A i \in DOMAIN q : q[i][3] = p[i][3]
         [] OTHER -> Len(p) = Len(q) /\ \A i \in DOMAIN q : q[i][1] = p[i][1] /\ q[i][3] = p[i][3]

(* sum, average, number of points *)
SumOf == IF HasNaN(tv.pts) THEN None ELSE RSum([i \in DOMAIN tv.pts |-> tv.pts[i][2]])
(* asof join of the result with the original points in time order: the last point of the result not after each of them *)
AsOf == LET o == SortedPts(Denoted)
            before(t) == {i \in DOMAIN tv.pts : tv.pts[i][1] <= t}
        IN IF ~NonDecreasing(tv.pts) \/ tv.pts = <<>> THEN <<>>
           ELSE [k \in DOMAIN o |-> LET b == before(o[k][1]) IN
                   <<b # {}, IF b = {} THEN None ELSE tv.pts[CHOOSE i \in b : \A j \in b : j <= i][2], o[k][2], o[k][1]>>]
Complete == phase = "run" /\ (EmitAll \/ status # "ok" \/ Len(ops) = MaxOps)
EmitCase == Complete =>
    Emit([rows |-> rows, ops |-> ops, status |-> status, pts |-> tv.pts, nulls |-> tv.nulls, sorted |-> tv.sorted, anynull |-> HasNull(Denoted), sum |-> SumOf, asof |-> AsOf])
=============================================================================
