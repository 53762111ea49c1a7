-------------------------------- MODULE Asap --------------------------------
(* asap_smooth: block averages, then the moving average of the least rough window (property C20).        *)
(* A row is <<time, value>>, either possibly NULL; rows are fed in sequence order and keep equal times.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Points, Big, TLC
CONSTANTS Times, Vals, Resolutions, MaxRows, EmitAll,
          Steps      \* of the random walks: a row is the last one moved by a time step 1..3 and one of these value steps
VARIABLES rows, res
vars == <<rows, res>>

Init == rows = <<>> /\ res \in Resolutions
Feed(t, v) == Len(rows) < MaxRows /\ rows' = Append(rows, <<t, v>>) /\ UNCHANGED res
Next == \E t \in Times, v \in Vals : Feed(t, v)
Spec == Init /\ [][Next]_vars
NextRandom == Len(rows) < MaxRows /\ Feed(RandomElement(Times), RandomElement(Vals))
SpecRandom == Init /\ [][NextRandom]_vars
NextWalk == Len(rows) < MaxRows /\ (IF rows = <<>> THEN Feed(RandomElement(Times), RandomElement(Vals))
                                    ELSE Feed(rows[Len(rows)][1] + RandomElement(1..3), rows[Len(rows)][2] + RandomElement(Steps)))
SpecWalk == Init /\ [][NextWalk]_vars

Us == Usable(rows)
Pts == LET order == SetToSortSeq(DOMAIN Us, LAMBDA i, j : Us[i][1] < Us[j][1] \/ (Us[i][1] = Us[j][1] /\ i < j))
       IN [k \in DOMAIN order |-> Us[order[k]]]
Abs(x) == IF x < 0 THEN -x ELSE x
Most(a, b) == IF a < b THEN b ELSE a
Least(a, b) == IF a < b THEN a ELSE b
Sum(s) == FoldLeft(+, 0, s)

-----------------------------------------------------------------------------
(* blocks of equal size; what is left over at the end is dropped *)
Block(n) == IF n > 2 * res THEN n \div res ELSE 1
PreOf(p) == LET b == Block(Len(p)) IN [j \in 1..Len(p) \div b |-> Sum([i \in 1..b |-> p[(j - 1) * b + i][2]])]
(* the sums of w neighbours *)
Moving(x, w) == [i \in 1..Len(x) - w + 1 |-> Sum(SubSeq(x, i, i + w - 1))]

(* fourth and second moments about the mean, of Len(x) times the values *)
Dev(x) == LET l == Len(x) t == Sum(x) IN [i \in DOMAIN x |-> BSq(BNat(Abs(l * x[i] - t)))]
M2(x) == BSum(Dev(x))
M4(x) == LET d == Dev(x) IN BSum([i \in DOMAIN d |-> BSq(d[i])])
(* kurtosis of x against that of y; both vary *)
KurtCmp(x, y) == BCmp(BMul(BScale(M4(x), Len(x)), BSq(M2(y))), BMul(BScale(M4(y), Len(y)), BSq(M2(x))))
(* the squared deviation of the steps of a moving sum of window w: Rough(x)[1] / (Rough(x)[2] * w)^2 *)
Rough(x) == LET k == Len(x) - 1
                d == [i \in 1..k |-> x[i + 1] - x[i]]
                s == BNat(Abs(Sum(d)))
                q == BScale(BSum([i \in 1..k |-> BSq(BNat(Abs(d[i])))]), k)
            IN <<d, q, BSq(s), k>>
RoughLess(x, w, y, u) ==   \* -1, 0, 1
    LET a == Rough(x) b == Rough(y)
        fa == BSq(BNat(b[4] * u)) fb == BSq(BNat(a[4] * w))
    IN BCmp(BAdd(BMul(a[2], fa), BMul(b[3], fb)), BAdd(BMul(b[2], fb), BMul(a[3], fa)))

(* Operational: halving search for the window; best so far, and whether a comparison was too close to call in floats *)
RECURSIVE Search(_, _, _, _, _)
Search(x, head, tail, best, knife) ==
    IF head > tail THEN [w |-> best, knife |-> knife]
    ELSE LET w == (head + tail + 1) \div 2
             m == Moving(x, w)
             flat == M2(m) = <<>> \/ M2(x) = <<>>
             kc == IF flat THEN -1 ELSE KurtCmp(m, x)
             rc == RoughLess(m, w, Moving(x, best), best)
             kn == knife \/ flat \/ (w # 1 /\ (kc = 0 \/ (kc > 0 /\ rc = 0)))
         IN IF kc >= 0 THEN Search(x, w + 1, tail, IF rc < 0 THEN w ELSE best, kn) ELSE Search(x, head, w - 1, best, kn)
Window(x) == IF Len(x) <= 1 THEN [w |-> 1, knife |-> FALSE] ELSE Search(x, 1, Len(x) \div 10, 1, FALSE)

(* answer with window w: <<time, numerator>>, the value being numerator / (block * w) *)
AnswerOf(p, w) == LET b == Block(Len(p)) m == Moving(PreOf(p), w)
                  IN [i \in DOMAIN m |-> <<p[Least((i - 1 + w \div 2) * b + 1, Len(p))][1], m[i]>>]

Final == rows # <<>> /\ (EmitAll \/ Len(rows) = MaxRows)
(* Denotation: the answer's values are means of runs of the input, never rougher than the block means *)
Laws == Final => LET p == Pts IN p # <<>> =>
    LET x == PreOf(p) b == Block(Len(p)) s == Window(x) a == AnswerOf(p, s.w) m == Moving(x, s.w)
    IN /\ Len(a) >= 1 /\ Len(a) <= 2 * res /\ s.w \in 1..Most(1, Len(x) \div 10)
       /\ \A i \in DOMAIN a : a[i][2] = Sum([j \in 1..b * s.w |-> p[(i - 1) * b + j][2]])
       /\ \A i \in 1..Len(a) - 1 : a[i][1] <= a[i + 1][1]
       /\ \A i \in DOMAIN a : /\ \E j \in DOMAIN p : p[j][2] * b * s.w >= a[i][2]
                              /\ \E j \in DOMAIN p : p[j][2] * b * s.w <= a[i][2]
       /\ s.w > 1 => KurtCmp(m, x) >= 0 /\ RoughLess(m, s.w, x, 1) < 0

EmitCase == Final =>
    LET p == Pts x == PreOf(p) s == Window(x)
        ws == IF p = <<>> THEN {} ELSE IF s.knife THEN 1..Most(1, Len(x) \div 10) ELSE {s.w}
    IN Emit([rows |-> rows, pts |-> p, res |-> res, block |-> IF p = <<>> THEN 1 ELSE Block(Len(p)), knife |-> s.knife,
             answers |-> [k \in 1..Cardinality(ws) |-> LET w == SetToSortSeq(ws, <)[k] IN <<w, AnswerOf(p, w)>>]])
=============================================================================
