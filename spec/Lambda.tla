------------------------------- MODULE Lambda -------------------------------
(* The expression language of map and filter elements (property C19).                                        *)
(* An expression is built bottom-up on a stack; trees: <<"val">>, <<"time">>, <<"num", n, d>>, <<"t", hour>>, *)
(* <<"i", hours>>, <<"var", k>>, <<"neg", e>>, <<"not", e>>, <<"group", e>>, <<"call", f, e>>, <<"bin", op, l, r>>. *)
(* A program is a sequence of variables (`let`) and a body.  Every value is a rational: truth is 1 or 0,      *)
(* times and intervals count hours.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Rat, Points, TLC
CONSTANTS Leaves, BinOps, UnOps, Funs, Pts, MaxSteps, MaxLets, MinSize
VARIABLES stack, lets, steps
vars == <<stack, lets, steps>>

-----------------------------------------------------------------------------
(* Types: D number, B truth value, T time, I interval, X rejected *)
Cmp == {"=", "!=", "<", "<=", ">", ">="}
TypeBin(op, a, b) ==
    CASE a = "X" \/ b = "X" -> "X"
      [] op \in Cmp -> IF a = b THEN "B" ELSE "X"
      [] op \in {"and", "or"} -> IF a = "B" /\ b = "B" THEN "B" ELSE "X"
      [] op \in {"+", "-"} -> IF a = "D" /\ b = "D" THEN "D" ELSE IF a = "T" /\ b = "I" THEN "T" ELSE IF a = "I" /\ b = "I" THEN "I" ELSE "X"
      [] op = "*" -> IF a = "D" /\ b = "D" THEN "D" ELSE IF {a, b} = {"D", "I"} THEN "I" ELSE "X"
      [] op = "/" -> IF a = "D" /\ b = "D" THEN "D" ELSE IF a = "I" /\ b = "D" THEN "I" ELSE "X"
      [] OTHER -> IF a = "D" /\ b = "D" THEN "D" ELSE "X"
RECURSIVE TypeOf(_, _)
TypeOf(e, ls) ==
    CASE e[1] \in {"val", "num"} -> "D" [] e[1] \in {"time", "t"} -> "T" [] e[1] = "i" -> "I"
      [] e[1] = "var" -> TypeOf(ls[e[2]], ls)
      [] e[1] = "neg" -> IF TypeOf(e[2], ls) = "D" THEN "D" ELSE "X"
      [] e[1] = "not" -> IF TypeOf(e[2], ls) = "B" THEN "B" ELSE "X"
      [] e[1] = "group" -> TypeOf(e[2], ls)
      [] e[1] = "call" -> IF TypeOf(e[3], ls) = "D" THEN "D" ELSE "X"
      [] e[1] = "bin" -> TypeBin(e[2], TypeOf(e[3], ls), TypeOf(e[4], ls))

(* Meaning at a point <<time, value>>: [v, x] - x: certainly exact in floating point; v = None: left undecided here *)
Pow2(d) == d \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
Open == [v |-> None, x |-> FALSE]
R(v, x) == IF Abs(v[1]) > 30000 \/ v[2] > 4096 THEN Open ELSE [v |-> v, x |-> x /\ Pow2(v[2])]
Truth(b) == [v |-> IF b THEN RI(1) ELSE RI(0), x |-> TRUE]
IsInt(v) == v[2] = 1
RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN RI(1) ELSE RMul(b, Power(b, n - 1))
FloorR(r) == r[1] \div r[2]
TruncR(r) == IF r[1] >= 0 THEN r[1] \div r[2] ELSE -((-r[1]) \div r[2])
RoundR(r) == IF r[1] >= 0 THEN (2 * r[1] + r[2]) \div (2 * r[2]) ELSE -((-2 * r[1] + r[2]) \div (2 * r[2]))
SignR(r) == IF r[1] > 0 THEN 1 ELSE IF r[1] < 0 THEN -1 ELSE 0
Edge(f, v) == CASE f \in {"ceil", "floor", "trunc"} -> IsInt(v) [] f = "round" -> v[2] = 2 [] f = "sign" -> v[1] = 0 [] OTHER -> FALSE
RootOf(n) == IF \E k \in 0..180 : k * k = n THEN CHOOSE k \in 0..180 : k * k = n ELSE -1
Fun(f, a) ==
    IF Edge(f, a.v) /\ ~a.x THEN Open
    ELSE CASE f = "abs" -> R(<<Abs(a.v[1]), a.v[2]>>, a.x)
           [] f = "ceil" -> R(RI(-FloorR(RNeg(a.v))), TRUE) [] f = "floor" -> R(RI(FloorR(a.v)), TRUE)
           [] f = "round" -> R(RI(RoundR(a.v)), TRUE) [] f = "sign" -> R(RI(SignR(a.v)), TRUE) [] f = "trunc" -> R(RI(TruncR(a.v)), TRUE)
           [] f = "sqrt" -> IF a.v[1] < 0 \/ RootOf(a.v[1]) < 0 \/ RootOf(a.v[2]) < 0 THEN Open ELSE R(<<RootOf(a.v[1]), RootOf(a.v[2])>>, a.x)
Bin(op, a, b) ==
    CASE op = "+" -> R(RAdd(a.v, b.v), a.x /\ b.x) [] op = "-" -> R(RSub(a.v, b.v), a.x /\ b.x) [] op = "*" -> R(RMul(a.v, b.v), a.x /\ b.x)
      [] op = "/" -> IF b.v[1] = 0 THEN Open ELSE R(RDiv(a.v, b.v), a.x /\ b.x)
      [] op = "^" -> IF ~IsInt(b.v) \/ ~b.x \/ Abs(b.v[1]) > 3 \/ Abs(a.v[1]) > 700 \/ a.v[2] > 16 THEN Open
                     ELSE IF b.v[1] >= 0 THEN R(Power(a.v, b.v[1]), a.x /\ b.v[1] <= 2)
                     ELSE IF a.v[1] = 0 THEN Open ELSE R(RDiv(RI(1), Power(a.v, -b.v[1])), FALSE)
      [] op \in Cmp -> IF a.v = b.v /\ ~(a.x /\ b.x) THEN Open
                       ELSE Truth(CASE op = "=" -> a.v = b.v [] op = "!=" -> a.v # b.v [] op = "<" -> RLt(a.v, b.v) [] op = "<=" -> RLe(a.v, b.v)
                                    [] op = ">" -> RLt(b.v, a.v) [] op = ">=" -> RLe(b.v, a.v))
RECURSIVE Eval(_, _, _)
Eval(e, ls, p) ==
    CASE e[1] = "val" -> [v |-> p[2], x |-> TRUE] [] e[1] = "time" -> [v |-> RI(p[1]), x |-> TRUE]
      [] e[1] = "num" -> R(Rt(e[2], e[3]), TRUE) [] e[1] \in {"t", "i"} -> [v |-> RI(e[2]), x |-> TRUE]
      [] e[1] = "var" -> Eval(ls[e[2]], ls, p) [] e[1] = "group" -> Eval(e[2], ls, p)
      [] e[1] = "neg" -> LET a == Eval(e[2], ls, p) IN IF a.v = None THEN Open ELSE [a EXCEPT !.v = RNeg(@)]
      [] e[1] = "not" -> LET a == Eval(e[2], ls, p) IN IF a.v = None THEN Open ELSE Truth(a.v = RI(0))
      [] e[1] = "call" -> LET a == Eval(e[3], ls, p) IN IF a.v = None THEN Open ELSE Fun(e[2], a)
      [] e[1] = "bin" -> LET a == Eval(e[3], ls, p) IN
           IF a.v = None THEN Open
           ELSE IF e[2] = "and" /\ a.v = RI(0) THEN Truth(FALSE)
           ELSE IF e[2] = "or" /\ a.v = RI(1) THEN Truth(TRUE)
           ELSE LET b == Eval(e[4], ls, p) IN IF b.v = None THEN Open ELSE IF e[2] \in {"and", "or"} THEN b ELSE Bin(e[2], a, b)

-----------------------------------------------------------------------------
(* Concrete syntax: or < and < comparisons < + - < * / < ^ (to the right) < unary minus and not *)
Level(e) == CASE e[1] = "bin" -> (CASE e[2] = "or" -> 1 [] e[2] = "and" -> 2 [] e[2] \in Cmp -> 3 [] e[2] \in {"+", "-"} -> 4 [] e[2] \in {"*", "/"} -> 5 [] OTHER -> 6)
              [] e[1] \in {"neg", "not"} -> 7
              [] OTHER -> 8
OpLevel(op) == Level(<<"bin", op>>)
RECURSIVE Text(_, _)
Text(e, min) ==
    LET body == CASE e[1] = "bin" -> (IF e[2] = "^" THEN Text(e[3], 7) \o <<<<"op", "^">>>> \o Text(e[4], 6)
                                      ELSE Text(e[3], Level(e)) \o <<<<"op", e[2]>>>> \o Text(e[4], Level(e) + 1))
                  [] e[1] = "neg" -> <<<<"op", "-">>>> \o Text(e[2], 7)
                  [] e[1] = "not" -> <<<<"op", "not">>>> \o Text(e[2], 7)
                  [] e[1] = "group" -> <<<<"op", "(">>>> \o Text(e[2], 1) \o <<<<"op", ")">>>>
                  [] e[1] = "call" -> <<<<"fun", e[2]>>, <<"op", "(">>>> \o Text(e[3], 1) \o <<<<"op", ")">>>>
                  [] OTHER -> <<e>>
    IN IF Level(e) < min THEN <<<<"op", "(">>>> \o body \o <<<<"op", ")">>>> ELSE body
(* Reading it back: a result is <<tree, rest of the tokens>> *)
RECURSIVE Primary(_), Climb(_, _, _), Operand(_, _)
IsOp(ts, o) == ts # <<>> /\ ts[1][1] = "op" /\ ts[1][2] = o
Binary == {"or", "and", "+", "-", "*", "/", "^"} \cup Cmp
Expr(ts, min) == LET p == Primary(ts) IN Climb(p[1], p[2], min)
Primary(ts) == CASE IsOp(ts, "-") -> LET p == Primary(Tail(ts)) IN <<<<"neg", p[1]>>, p[2]>>
                 [] IsOp(ts, "not") -> LET p == Primary(Tail(ts)) IN <<<<"not", p[1]>>, p[2]>>
                 [] IsOp(ts, "(") -> LET p == Operand(Tail(ts), 1) IN <<p[1], Tail(p[2])>>
                 [] ts[1][1] = "fun" -> LET p == Operand(Tail(Tail(ts)), 1) IN <<<<"call", ts[1][2], p[1]>>, Tail(p[2])>>
                 [] OTHER -> <<ts[1], Tail(ts)>>
Operand(ts, min) == Expr(ts, min)
Climb(left, ts, min) ==
    IF ts = <<>> \/ ts[1][1] # "op" THEN <<left, ts>>
    ELSE IF ts[1][2] \notin Binary \/ OpLevel(ts[1][2]) < min THEN <<left, ts>>
    ELSE LET op == ts[1][2]
             r == Operand(Tail(ts), IF op = "^" THEN 6 ELSE OpLevel(op) + 1)
         IN Climb(<<"bin", op, left, r[1]>>, r[2], min)
RECURSIVE Strip(_)
Strip(e) == CASE e[1] = "group" -> Strip(e[2]) [] e[1] \in {"neg", "not"} -> <<e[1], Strip(e[2])>> [] e[1] = "call" -> <<"call", e[2], Strip(e[3])>>
              [] e[1] = "bin" -> <<"bin", e[2], Strip(e[3]), Strip(e[4])>> [] OTHER -> e
Reads == \A e \in {stack[i] : i \in DOMAIN stack} : Expr(Text(e, 1), 1) = <<Strip(e), <<>>>>

-----------------------------------------------------------------------------
Init == stack = <<>> /\ lets = <<>> /\ steps = 0
Top == stack[Len(stack)]
Below == stack[Len(stack) - 1]
Go == steps < MaxSteps /\ steps' = steps + 1
Push(l) == Go /\ Len(stack) < 3 /\ stack' = Append(stack, l) /\ UNCHANGED lets
Wrap(w(_)) == Go /\ stack # <<>> /\ stack' = [stack EXCEPT ![Len(stack)] = w(@)] /\ UNCHANGED lets
Join(op) == Go /\ Len(stack) >= 2 /\ stack' = Append(SubSeq(stack, 1, Len(stack) - 2), <<"bin", op, Below, Top>>) /\ UNCHANGED lets
Let == Go /\ Len(stack) = 1 /\ Len(lets) < MaxLets /\ lets' = Append(lets, Top) /\ stack' = <<>>
Vars == {<<"var", k>> : k \in DOMAIN lets}
Wrapped(u, e) == IF u \in Funs THEN <<"call", u, e>> ELSE <<u, e>>
Next == \/ \E l \in Leaves \cup Vars : Push(l)
        \/ \E u \in UnOps \cup Funs : Wrap(LAMBDA e : Wrapped(u, e))
        \/ \E o \in BinOps : Join(o)
        \/ (MaxLets > 0 /\ Let)
Spec == Init /\ [][Next]_vars

T(e) == TypeOf(e, lets)
Fits == IF Len(stack) < 2 THEN {} ELSE {o \in BinOps : TypeBin(o, T(Below), T(Top)) # "X"}
UFits == IF stack = <<>> THEN {} ELSE {u \in UnOps \cup Funs : T(Wrapped(u, Top)) # "X"}
NextRandom == /\ steps < MaxSteps
              /\ \E c \in {RandomElement(1..60)} :
                   IF Fits # {} /\ (c <= 26 \/ Len(stack) = 3) THEN \E o \in {RandomElement(Fits)} : Join(o)
                   ELSE IF UFits # {} /\ c \in 27..34 THEN \E u \in {RandomElement(UFits)} : Wrap(LAMBDA e : Wrapped(u, e))
                   ELSE IF c = 35 /\ Len(stack) >= 2 THEN \E o \in {RandomElement(BinOps)} : Join(o)
                   ELSE IF c = 36 /\ stack # <<>> THEN \E u \in {RandomElement(UnOps \cup Funs)} : Wrap(LAMBDA e : Wrapped(u, e))
                   ELSE IF Len(stack) = 1 /\ Len(lets) < MaxLets /\ c \in 37..39 THEN Let
                   ELSE IF Vars # {} /\ c \in 40..46 /\ Len(stack) < 3 THEN \E v \in {RandomElement(Vars)} : Push(v)
                   ELSE IF Len(stack) < 3 THEN \E l \in {RandomElement(Leaves)} : Push(l)
                   ELSE \E o \in {RandomElement(Cmp)} : Join(o)
SpecRandom == Init /\ [][NextRandom]_vars

-----------------------------------------------------------------------------
(* laws of the meaning: the type decides what the value can be; evaluation does not depend on grouping *)
Sane == \A i \in DOMAIN stack : LET e == stack[i]  t == T(e) IN t # "X" =>
    \A k \in DOMAIN Pts : LET r == Eval(e, lets, Pts[k]) IN
        /\ t = "B" /\ r.v # None => r.v \in {RI(0), RI(1)}
        /\ r = Eval(Strip(e), lets, Pts[k])
RECURSIVE SizeOf(_)
SizeOf(e) == CASE e[1] = "bin" -> 1 + SizeOf(e[3]) + SizeOf(e[4]) [] e[1] \in {"neg", "not", "group"} -> 1 + SizeOf(e[2]) [] e[1] = "call" -> 1 + SizeOf(e[3]) [] OTHER -> 1
Rejected == T(stack[1]) = "X" \/ \E k \in DOMAIN lets : T(lets[k]) = "X"
EmitCase == (Len(stack) = 1 /\ SizeOf(stack[1]) >= MinSize) =>
    LET e == stack[1]
        ok == ~Rejected
        ans == IF ok THEN [k \in DOMAIN Pts |-> Eval(e, lets, Pts[k])] ELSE <<>>
    IN Emit([text |-> Text(e, 1), lets |-> [k \in DOMAIN lets |-> Text(lets[k], 1)], type |-> IF ok THEN T(e) ELSE "X",
             vals |-> [k \in DOMAIN ans |-> ans[k].v], exact |-> [k \in DOMAIN ans |-> ans[k].x]])
=============================================================================
