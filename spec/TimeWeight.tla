---------------------------- MODULE TimeWeight ----------------------------
(* time_weight (property C08).                                              *)
(*                                                                           *)
(* Rows are fed into three neighbouring aggregates: the rows before the      *)
(* window [S, E), those inside it and those from E on.  The middle one is    *)
(* asked for its plain answers and for its answers over the window with and  *)
(* without the neighbours.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Rat, Points, TLC

CONSTANTS Method,        \* "LOCF" or "Linear"
          T, Vmin, V, MaxRows, WithNull, EmitAll,
          Starts, Ends   \* candidate window edges

VARIABLES rows, S, E
vars == <<rows, S, E>>

RowSet == ((0..T) \X (Vmin..V)) \cup (IF WithNull THEN {<<NULL, V>>, <<T, NULL>>} ELSE {})
Init == rows = <<>> /\ S \in Starts /\ E \in {e \in Ends : e > S}
Feed(r) == Len(rows) < MaxRows /\ rows' = Append(rows, r) /\ UNCHANGED <<S, E>>
Next == \E r \in RowSet : Feed(r)
Spec == Init /\ [][Next]_vars
NextRandom == Len(rows) < MaxRows /\ Feed(<<RandomElement(0..T), RandomElement(Vmin..V)>>)
SpecRandom == Init /\ [][NextRandom]_vars

Bucket(b) == SelectSeq(rows, LAMBDA r : \/ b = 1 /\ r[1] < S
                                        \/ b = 2 /\ r[1] >= S /\ r[1] < E
                                        \/ b = 3 /\ r[1] >= E)
P(b) == PointsOf(SelectSeq(Bucket(b), LAMBDA r : r[1] # NULL))

-----------------------------------------------------------------------------
(* Operational summary: first and last point, twice the weighted sum.  Values are rationals. *)
Pt(p) == <<p[1], RI(p[2])>>
Seg(a, b) == LET d == RI(b[1] - a[1])
             IN IF Method = "LOCF" THEN RMul(a[2], d) ELSE RMul(Rt(1, 2), RMul(RAdd(a[2], b[2]), d))
New(p) == [first |-> p, last |-> p, w |-> RI(0)]
Add(s, p) == [s EXCEPT !.last = p, !.w = RAdd(@, Seg(s.last, p))]
Combine(a, b) == [first |-> a.first, last |-> b.last, w |-> RAdd(RAdd(a.w, b.w), Seg(a.last, b.first))]
RECURSIVE FoldTo(_, _)
FoldTo(p, k) == IF k = 1 THEN New(Pt(p[1])) ELSE Add(FoldTo(p, k - 1), Pt(p[k]))
Fold(p) == FoldTo(p, Len(p))

Lerp(a, b, t) == RAdd(a[2], RMul(RSub(b[2], a[2]), Rt(t - a[1], b[1] - a[1])))
At(a, b, t) == <<t, IF Method = "LOCF" THEN a[2] ELSE Lerp(a, b, t)>>

(* the summary stretched to the window; prev/next are summaries or None *)
Stretch(s, prev, next) ==
    LET l == IF prev = None \/ S = s.first[1] THEN s
             ELSE LET e == At(prev.last, s.first, S) IN [s EXCEPT !.first = e, !.w = RAdd(@, Seg(e, s.first))]
        r == IF next # None THEN At(s.last, next.first, E)
             ELSE IF Method = "LOCF" THEN <<E, s.last[2]>> ELSE s.last
    IN IF r[1] = l.last[1] THEN l ELSE [l EXCEPT !.last = r, !.w = RAdd(@, Seg(l.last, r))]

Ans(s) == [integral |-> s.w,
           average |-> IF s.first[1] = s.last[1] THEN None ELSE RDiv(s.w, RI(s.last[1] - s.first[1]))]

-----------------------------------------------------------------------------
(* Denotation: the curve through all given points, as a function of time, integrated piece by piece *)
(* area under the sequence of known points q (with rational values) between its first and last *)
Area(q) == RSum([i \in 1..(Len(q) - 1) |-> Seg(q[i], q[i + 1])])
(* value of the curve q at time t *)
Val(q, t) == LET i == CHOOSE k \in DOMAIN q : q[k][1] <= t /\ \A m \in DOMAIN q : q[m][1] <= t => m <= k
             IN IF q[i][1] = t \/ Method = "LOCF" THEN q[i][2] ELSE Lerp(q[i], q[i + 1], t)
(* the curve between times a and b, with its end points *)
Cut(q, a, b) == LET mid == SelectSeq(q, LAMBDA p : p[1] > a /\ p[1] < b)
                IN <<<<a, Val(q, a)>>>> \o mid \o (IF b > a THEN <<<<b, Val(q, b)>>>> ELSE <<>>)
Pts(p) == [i \in DOMAIN p |-> Pt(p[i])]

DAns(a, b, q) == LET area == Area(Cut(q, a, b))
                 IN [integral |-> area, average |-> IF a = b THEN None ELSE RDiv(area, RI(b - a))]

(* which neighbours are given: useP, useN; the curve is known from a to b *)
DStretch(useP, useN) ==
    LET c == P(2)
        q == (IF useP THEN <<P(1)[Len(P(1))]>> ELSE <<>>) \o c \o (IF useN THEN <<P(3)[1]>> ELSE <<>>)
        a == IF useP THEN S ELSE c[1][1]
        b == IF useN \/ Method = "LOCF" THEN E ELSE c[Len(c)][1]
    IN DAns(a, b, Pts(q))

-----------------------------------------------------------------------------
Options == {<<p, n>> \in {TRUE, FALSE} \X {TRUE, FALSE} : (p => P(1) # <<>>) /\ (n => P(3) # <<>>)}

Refines == P(2) # <<>> =>
    LET c == P(2)  s == Fold(c)
    IN /\ Ans(s) = DAns(c[1][1], c[Len(c)][1], Pts(c))
       /\ \A o \in Options : Ans(Stretch(s, IF o[1] THEN Fold(P(1)) ELSE None, IF o[2] THEN Fold(P(3)) ELSE None)) = DStretch(o[1], o[2])

CombineOK == LET p == PointsOf(rows)
             IN \A k \in 1..(Len(p) - 1) : Combine(Fold(SubSeq(p, 1, k)), Fold(SubSeqFrom(p, k + 1))) = Fold(p)

(* integrals over adjacent windows add up when the neighbours are given *)
Additive == (P(1) # <<>> /\ P(2) # <<>> /\ P(3) # <<>>) =>
    LET q == Pts(P(1)) \o Pts(P(2)) \o Pts(P(3))
        a == q[1][1]  z == q[Len(q)][1]
    IN Area(q) = RAdd(RAdd(Area(Cut(q, a, S)), DStretch(TRUE, TRUE).integral), Area(Cut(q, E, z)))

EmitCase == (EmitAll \/ Len(rows) = MaxRows) =>
    LET c == P(2)
    IN Emit([rows |-> rows, s |-> S, e |-> E, method |-> Method,
             exp |-> IF c = <<>> THEN <<>>
                     ELSE <<[first |-> c[1], last |-> c[Len(c)], plain |-> DAns(c[1][1], c[Len(c)][1], Pts(c)),
                             opts |-> SetToSeq({[p |-> o[1], n |-> o[2], a |-> DStretch(o[1], o[2])] : o \in Options})]>>])
=============================================================================
