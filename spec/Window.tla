------------------------------- MODULE Window -------------------------------
(* Aggregates as window functions (property C04): PostgreSQL moves a frame over the rows, feeds the rows that     *)
(* enter it to the state, and either takes the rows that leave out of the state again (moving aggregates) or       *)
(* starts over; after each move it reads the result, and goes on with the same state.                              *)
EXTENDS Summary, TLC
CONSTANTS Sizes, Vals, Keys, Reach,  \* frame bounds go up to Reach rows from the current one
          EmitAll
VARIABLES rows,
          frame,     \* [from, to]: offsets of the frame's ends from the current row, or OPEN for an unbounded end
          cur, lo, hi, \* the current row and its frame (rows lo..hi; empty if lo > hi)
          state,     \* summary of a state that starts over when rows leave
          moving,    \* what a moving aggregate keeps: count, total, total of squares
          frames, done
vars == <<rows, frame, cur, lo, hi, state, moving, frames, done>>

OPEN == 99
Frames == {f \in [from : (-Reach..Reach) \cup {-OPEN}, to : (-Reach..Reach) \cup {OPEN}] : f.from <= f.to}
Zero == [n |-> 0, t |-> 0, q |-> 0]
Start(rs, f) == rows = rs /\ frame = f /\ cur = 0 /\ lo = 1 /\ hi = 0 /\ state = Empty /\ moving = Zero /\ frames = <<>> /\ done = FALSE
Init == \E n \in Sizes, f \in Frames : \E rs \in [1..n -> Vals \X Keys], p \in {q \in [1..n -> 1..n] : \A i, j \in 1..n : q[i] = q[j] => i = j} : Start([i \in 1..n |-> <<3 * p[i], rs[i][1], rs[i][2]>>], f)
Shuffled(S) == LET RECURSIVE go(_) go(T) == IF T = {} THEN <<>> ELSE LET x == RandomElement(T) IN <<x>> \o go(T \ {x}) IN go(S)
InitRandom == Start(<<>>, [from |-> 0, to |-> 0])
RECURSIVE Rand(_, _)
Rand(n, p) == IF n = 0 THEN <<>> ELSE Append(Rand(n - 1, p), <<3 * p[n] + RandomElement(0..2), RandomElement(Vals), RandomElement(Keys)>>)
(* the first step of a random behaviour draws the rows and the frame *)
Draw == \E n \in {RandomElement(Sizes)}, x \in {RandomElement(1..4)}, g \in {RandomElement(Frames)}, ord \in {RandomElement(BOOLEAN)} :
        \E p \in {IF ord THEN [i \in 1..n |-> i] ELSE Shuffled(1..n)} : \E rs \in {Rand(n, p)} :
           rows' = rs /\ frame' = (IF x = 1 THEN [from |-> -OPEN, to |-> 0] ELSE IF x = 2 THEN [from |-> -2, to |-> 0] ELSE g) /\ UNCHANGED <<cur, lo, hi, state, moving, frames, done>>

N == Len(rows)
From(k) == IF frame.from = -OPEN THEN 1 ELSE IF k + frame.from < 1 THEN 1 ELSE IF k + frame.from > N + 1 THEN N + 1 ELSE k + frame.from
To(k) == IF frame.to = OPEN THEN N ELSE IF k + frame.to > N THEN N ELSE IF k + frame.to < 0 THEN 0 ELSE k + frame.to
Add(m, r) == IF r[2] = NULL THEN m ELSE [n |-> m.n + 1, t |-> m.t + r[2], q |-> m.q + r[2] * r[2]]
Drop(m, r) == IF r[2] = NULL THEN m ELSE IF m.n = 1 THEN Zero ELSE [n |-> m.n - 1, t |-> m.t - r[2], q |-> m.q - r[2] * r[2]]
Feed(s, i) == Merge(s, RowSum(rows[i]))
Rows(a, b) == IF a > b THEN <<>> ELSE [i \in 1..(b - a + 1) |-> a + i - 1]
(* the frame moves to the next row: some rows leave at its start, some enter at its end *)
Move == LET k == cur + 1 a == From(k) b == To(k)
            overlap == a <= hi
            gone == IF overlap THEN Rows(lo, a - 1) ELSE Rows(lo, hi)
            new == IF overlap THEN Rows(hi + 1, b) ELSE Rows(a, b)
        IN /\ cur < N /\ cur' = k /\ lo' = a /\ hi' = IF b < a THEN a - 1 ELSE b
           /\ moving' = FoldLeft(LAMBDA m, i : Add(m, rows[i]), FoldLeft(LAMBDA m, i : Drop(m, rows[i]), moving, gone), new)
           /\ state' = IF gone = <<>> THEN FoldLeft(Feed, state, new) ELSE FoldLeft(Feed, Empty, Rows(a, b))
           /\ frames' = Append(frames, IF b < a THEN <<1, 0>> ELSE <<a, b>>)
           /\ UNCHANGED <<rows, frame, done>>
Finish == cur = N /\ ~done /\ done' = TRUE /\ UNCHANGED <<rows, frame, cur, lo, hi, state, moving, frames>>
Next == Move \/ Finish
Spec == Init /\ [][Next]_vars
NextRandom == IF rows = <<>> THEN Draw ELSE Next
SpecRandom == InitRandom /\ [][NextRandom]_vars

-----------------------------------------------------------------------------
InFrame == [i \in DOMAIN Rows(lo, hi) |-> rows[lo + i - 1]]
(* what SQL says the frame of row k is *)
Defined(k) == {i \in DOMAIN rows : (frame.from = -OPEN \/ i >= k + frame.from) /\ (frame.to = OPEN \/ i <= k + frame.to)}
FrameIs == cur > 0 => {i \in DOMAIN rows : lo <= i /\ i <= hi} = Defined(cur)
Restarts == state = Denotes(InFrame)
Inverts == LET u == SelectSeq(InFrame, LAMBDA r : r[2] # NULL)
           IN moving = [n |-> Len(u), t |-> FoldLeft(+, 0, [i \in DOMAIN u |-> u[i][2]]), q |-> FoldLeft(+, 0, [i \in DOMAIN u |-> u[i][2] * u[i][2]])]
EmitCase == done => Emit([rows |-> rows, from |-> frame.from, to |-> frame.to, frames |-> frames])
=============================================================================
