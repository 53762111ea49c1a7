------------------------------ MODULE Saturate ------------------------------
(* Saturating integer arithmetic: results beyond the ends of the integers are those ends, results below zero of the _pos            *)
(* operations are zero.  Written so that no intermediate value leaves Lo .. Hi (the operations are total on machine integers, and   *)
(* the model checker's integers are 32 bits wide themselves).  For small bounds, Exact compares it with unbounded arithmetic.       *)
(* A register machine applies operations one after another: programs over values that are already saturated.                       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Lo, Hi, Seeds, MaxSteps, EmitAll
VARIABLES acc, prog
vars == <<acc, prog>>

Add(a, b) == IF b > 0 /\ a > Hi - b THEN Hi ELSE IF b < 0 /\ a < Lo - b THEN Lo ELSE a + b
Sub(a, b) == IF b < 0 /\ a > Hi + b THEN Hi ELSE IF b > 0 /\ a < Lo + b THEN Lo ELSE a - b
Mag(a) == IF a < 0 THEN -a ELSE a                       \* not of Lo
MulAbs(a, b) == IF a = 0 \/ b = 0 THEN 0
                ELSE IF Mag(a) > Hi \div Mag(b) THEN (IF (a < 0) = (b < 0) THEN Hi ELSE Lo) ELSE a * b
Mul(a, b) == IF a = Lo \/ b = Lo
             THEN LET o == IF a = Lo THEN b ELSE a IN IF o = 0 THEN 0 ELSE IF o > 0 THEN Lo ELSE Hi
             ELSE MulAbs(a, b)
NonNeg(a) == IF a > 0 THEN a ELSE 0
Ops == {"add", "add_pos", "sub", "sub_pos", "mul"}
Apply(o, a, b) == CASE o = "add" -> Add(a, b) [] o = "add_pos" -> NonNeg(Add(a, b)) [] o = "sub" -> Sub(a, b)
                    [] o = "sub_pos" -> NonNeg(Sub(a, b)) [] o = "mul" -> Mul(a, b)

(* what it means, in unbounded arithmetic; only for small bounds *)
Clamp(x, l) == IF x < l THEN l ELSE IF x > Hi THEN Hi ELSE x
Meaning(o, a, b) == CASE o = "add" -> Clamp(a + b, Lo) [] o = "add_pos" -> Clamp(a + b, 0) [] o = "sub" -> Clamp(a - b, Lo)
                      [] o = "sub_pos" -> Clamp(a - b, 0) [] o = "mul" -> Clamp(a * b, Lo)

Init == \E s \in Seeds : acc = s /\ prog = << <<"start", s, s>> >>
Do(o, b, flip) == LET r == IF flip THEN Apply(o, b, acc) ELSE Apply(o, acc, b) IN
                  acc' = r /\ prog' = Append(prog, <<o, b, r, flip>>)
Step == Len(prog) <= MaxSteps /\ \E o \in Ops, b \in Seeds, flip \in BOOLEAN : Do(o, b, flip)
Spec == Init /\ [][Step]_vars
RandomStep == Len(prog) <= MaxSteps /\ \E o \in {RandomElement(Ops)}, b \in {RandomElement(Seeds)}, flip \in {RandomElement(BOOLEAN)} : Do(o, b, flip)
SpecRandom == Init /\ [][RandomStep]_vars

Bounded == acc \in Lo .. Hi
Exact == \A o \in Ops, a \in Lo .. Hi, b \in Lo .. Hi : Apply(o, a, b) = Meaning(o, a, b)
EmitCase == (Len(prog) > MaxSteps \/ (EmitAll /\ Len(prog) = 2)) => PrintT("@@" \o ToJson([prog |-> prog]))
=============================================================================
