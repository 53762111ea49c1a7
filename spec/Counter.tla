------------------------------ MODULE Counter ------------------------------
(* counter_agg and gauge_agg (properties C05, C06).                          *)
(*                                                                           *)
(* State machine: rows are fed one at a time to a transition state (buf); the *)
(* answer is obtained from a summary folded over the time-ordered points.    *)
(* The summary is the implementation's: four points, the running reset sum,  *)
(* counters and the sums of the regression.  The denotational part (D...)    *)
(* defines every answer directly on the point sequence.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Rat, Points, TLC

CONSTANTS Gauge,      \* TRUE: gauge_agg, FALSE: counter_agg
          T, V,       \* times 0..T, values Vmin..V
          Vmin,
          MaxRows,
          WithNull,   \* feed NULL times and values too
          EmitAll     \* TRUE: every reachable state is a case; FALSE: only full-length ones

VARIABLES rows, buf
vars == <<rows, buf>>

RowSet == ((0..T) \X (Vmin..V)) \cup (IF WithNull THEN {<<NULL, V>>, <<T, NULL>>} ELSE {})

Init == rows = <<>> /\ buf = <<>>
Feed(r) == /\ Len(rows) < MaxRows
           /\ rows' = Append(rows, r)
           /\ buf' = IF r[1] = NULL \/ r[2] = NULL THEN buf ELSE Append(buf, r)
Next == \E r \in RowSet : Feed(r)
Spec == Init /\ [][Next]_vars

(* random walks that reach MaxRows quickly with wide ranges *)
NextRandom == Len(rows) < MaxRows /\ Feed(<<RandomElement(0..T), RandomElement(Vmin..V)>>)
SpecRandom == Init /\ [][NextRandom]_vars

-----------------------------------------------------------------------------
(* Operational summary *)
New(p) == [first |-> p, second |-> p, pen |-> p, last |-> p, rs |-> 0, nr |-> 0, nc |-> 0,
           n |-> 1, sx |-> p[1], sxx |-> p[1] * p[1], sy |-> p[2], syy |-> p[2] * p[2], sxy |-> p[1] * p[2]]

IsReset(s, v) == ~Gauge /\ v < s.last[2]

Add(s, p) ==
    LET rs == IF IsReset(s, p[2]) THEN s.rs + s.last[2] ELSE s.rs
        y == p[2] + rs
    IN [s EXCEPT !.rs = rs,
                 !.nr = IF IsReset(s, p[2]) THEN @ + 1 ELSE @,
                 !.nc = IF p[2] # s.last[2] THEN @ + 1 ELSE @,
                 !.second = IF s.first = s.second THEN p ELSE @,
                 !.pen = s.last, !.last = p,
                 !.n = @ + 1, !.sx = @ + p[1], !.sxx = @ + p[1] * p[1],
                 !.sy = @ + y, !.syy = @ + y * y, !.sxy = @ + p[1] * y]

(* b lies after a in time *)
Combine(a, b) ==
    LET rs == IF IsReset(a, b.first[2]) THEN a.rs + a.last[2] ELSE a.rs
        (* b's regression sums shifted up by rs *)
        sy == b.sy + b.n * rs
        syy == b.syy + 2 * rs * b.sy + b.n * rs * rs
        sxy == b.sxy + rs * b.sx
    IN [first |-> a.first,
        second |-> IF a.first = a.last THEN b.first ELSE a.second,
        pen |-> IF b.first = b.last THEN a.last ELSE b.pen,
        last |-> b.last,
        rs |-> rs + b.rs,
        nr |-> a.nr + b.nr + (IF IsReset(a, b.first[2]) THEN 1 ELSE 0),
        nc |-> a.nc + b.nc + (IF a.last[2] # b.first[2] THEN 1 ELSE 0),
        n |-> a.n + b.n, sx |-> a.sx + b.sx, sxx |-> a.sxx + b.sxx,
        sy |-> a.sy + sy, syy |-> a.syy + syy, sxy |-> a.sxy + sxy]

RECURSIVE FoldTo(_, _)
FoldTo(p, k) == IF k = 1 THEN New(p[1]) ELSE Add(FoldTo(p, k - 1), p[k])
Fold(p) == FoldTo(p, Len(p))

(* instantaneous change between neighbours.  A drop counts as a restart from zero, for gauges too: the
   implementation's own tests (idelta_left_after_gauge_decrease and others) ask for that. *)
IDelta(a, b) == IF b[2] < a[2] THEN b[2] ELSE b[2] - a[2]

(* regression answers from the sums; [] where undefined *)
Regr(n, sx, sxx, sy, syy, sxy) ==
    LET cxx == n * sxx - sx * sx     \* n^2 times the variances and the covariance
        cyy == n * syy - sy * sy
        cxy == n * sxy - sx * sy
        slope == IF n > 1 THEN Rt(cxy, cxx) ELSE None
        icpt == IF n > 1 THEN RSub(Rt(sy, n), RMul(slope, Rt(sx, n))) ELSE None
    IN [slope |-> slope,
        intercept |-> icpt,
        \* the time at which the fitted line is zero
        zero |-> IF n > 1 /\ slope[1] # 0 THEN RNeg(RDiv(icpt, slope)) ELSE None,
        corr |-> IF n > 1 THEN <<cxy, cxx, cyy>> ELSE None]

Answers(s) ==
    LET delta == s.last[2] + s.rs - s.first[2]
        dt == s.last[1] - s.first[1]
        one == s.n = 1
    IN [delta |-> RI(delta), rate |-> IF one THEN None ELSE Rt(delta, dt), time_delta |-> RI(dt),
        idelta_left |-> RI(IDelta(s.first, s.second)), idelta_right |-> RI(IDelta(s.pen, s.last)),
        irate_left |-> IF one THEN None ELSE Rt(IDelta(s.first, s.second), s.second[1] - s.first[1]),
        irate_right |-> IF one THEN None ELSE Rt(IDelta(s.pen, s.last), s.last[1] - s.pen[1]),
        num_elements |-> s.n, num_changes |-> s.nc, num_resets |-> s.nr,
        first |-> s.first, last |-> s.last,
        regr |-> Regr(s.n, s.sx, s.sxx, s.sy, s.syy, s.sxy)]

-----------------------------------------------------------------------------
(* Denotation on the point sequence p (non-empty) *)
ResetAt(p, i) == ~Gauge /\ i > 1 /\ p[i][2] < p[i - 1][2]
(* the value a counter would show without resets *)
Adj(p, i) == p[i][2] + Sum([k \in 1..i |-> IF ResetAt(p, k) THEN p[k - 1][2] ELSE 0])

DAnswers(p) ==
    LET n == Len(p)
        delta == Adj(p, n) - Adj(p, 1)
        dt == p[n][1] - p[1][1]
        step(i) == IF p[i][2] < p[i - 1][2] THEN p[i][2] ELSE p[i][2] - p[i - 1][2]
    IN [delta |-> RI(delta), rate |-> IF n = 1 THEN None ELSE Rt(delta, dt), time_delta |-> RI(dt),
        idelta_left |-> RI(IF n = 1 THEN 0 ELSE step(2)), idelta_right |-> RI(IF n = 1 THEN 0 ELSE step(n)),
        irate_left |-> IF n = 1 THEN None ELSE Rt(step(2), p[2][1] - p[1][1]),
        irate_right |-> IF n = 1 THEN None ELSE Rt(step(n), p[n][1] - p[n - 1][1]),
        num_elements |-> n,
        num_changes |-> Cardinality({i \in 2..n : p[i][2] # p[i - 1][2]}),
        num_resets |-> Cardinality({i \in 2..n : ResetAt(p, i)}),
        first |-> p[1], last |-> p[n],
        regr |-> Regr(n, Sum([i \in 1..n |-> p[i][1]]), Sum([i \in 1..n |-> p[i][1] * p[i][1]]),
                         Sum([i \in 1..n |-> Adj(p, i)]), Sum([i \in 1..n |-> Adj(p, i) * Adj(p, i)]),
                         Sum([i \in 1..n |-> p[i][1] * Adj(p, i)]))]

-----------------------------------------------------------------------------
(* the buffered rows denote the same points as all the rows *)
BufOK == PointsOf(buf) = PointsOf(rows)

Refines == LET p == PointsOf(rows) IN p # <<>> => Answers(Fold(p)) = DAnswers(p)

(* cutting the time line anywhere and combining gives the same summary *)
CombineOK == LET p == PointsOf(rows)
             IN \A k \in 1..(Len(p) - 1) : Combine(Fold(SubSeq(p, 1, k)), Fold(SubSeqFrom(p, k + 1))) = Fold(p)

(* a counter never goes down *)
Monotone == LET p == PointsOf(rows)
            IN (~Gauge /\ Vmin >= 0) => \A i \in 2..Len(p) : Adj(p, i) >= Adj(p, i - 1)

EmitCase == (EmitAll \/ Len(rows) = MaxRows) =>
    LET p == PointsOf(rows)
    IN Emit([rows |-> rows, exp |-> IF p = <<>> THEN <<>> ELSE <<DAnswers(p)>>])
=============================================================================
