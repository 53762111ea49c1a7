------------------------------- MODULE Storage -------------------------------
(* What happens to an aggregate value outside of a computation (property C03): it is written as text and read      *)
(* back, laid into arrays and rows, and stored in tables, where PostgreSQL shortens its header, compresses it or   *)
(* moves it out of line.  A value is abstracted to its fields: names (sequences of characters, some of which mean  *)
(* something in the text form), optional numbers, and its length.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Points, TLC
CONSTANTS Chars, Names,   \* characters; the names used by this run (sequences of characters)
          Narrow,         \* the characters that databases with a narrower encoding have
          Times, Nums,    \* classes of times and numbers
          Damages,        \* what happens to a text on its way: <<kind, place (of 1000)>>
          Sizes, MaxSteps, EmitAll
VARIABLES rows,   \* <<time class, number class, name>>: what the value is made of
          form,   \* how the value is represented now
          path,   \* what was done to it
          base,   \* the database: 0 one in UTF8, 1 in a narrower encoding, 2 with ICU collations, 3 a template
          session, damage, done
vars == <<rows, form, path, base, session, damage, done>>

(* ---- the text form: tokens, a name is quoted and its special characters are escaped ---- *)
Esc(c) == CASE c = "q" -> <<"b", "q">> [] c = "b" -> <<"b", "b">> [] c = "n" -> <<"b", "N">> [] OTHER -> <<c>>
Quote(s) == <<"q">> \o FoldLeft(\o, <<>>, [i \in DOMAIN s |-> Esc(s[i])]) \o <<"q">>
Num(x) == IF x = NULL THEN <<"None">> ELSE <<"Some", "(", ToString(x), ")">>
Item(r) == <<"(">> \o Num(r[1]) \o <<",">> \o Num(r[2]) \o <<",">> \o Quote(r[3]) \o <<")">>
ToText(v) == <<"[">> \o FoldLeft(\o, <<>>, [i \in DOMAIN v |-> Item(v[i]) \o <<",">>]) \o <<"]">>

(* reading: every reader takes the text and a position, and gives what it read and the position after it; <<>>: does not parse *)
RECURSIVE ReadName(_, _, _)
ReadName(t, p, acc) == IF p > Len(t) THEN <<>>
                       ELSE IF t[p] = "q" THEN <<acc, p + 1>>
                       ELSE IF t[p] = "b" THEN (IF p = Len(t) THEN <<>> ELSE ReadName(t, p + 2, Append(acc, IF t[p + 1] = "N" THEN "n" ELSE t[p + 1])))
                       ELSE ReadName(t, p + 1, Append(acc, t[p]))
Want(t, p, c) == p <= Len(t) /\ t[p] = c
ReadNum(t, p) == IF Want(t, p, "None") THEN <<NULL, p + 1>>
                 ELSE IF Want(t, p, "Some") /\ Want(t, p + 1, "(") /\ Want(t, p + 3, ")") /\ \E x \in Nums \cup Times : ToString(x) = t[p + 2]
                      THEN <<CHOOSE x \in Nums \cup Times : ToString(x) = t[p + 2], p + 4>> ELSE <<>>
ReadItem(t, p) == IF ~Want(t, p, "(") THEN <<>> ELSE
                  LET a == ReadNum(t, p + 1) IN IF a = <<>> \/ ~Want(t, a[2], ",") THEN <<>> ELSE
                  LET b == ReadNum(t, a[2] + 1) IN IF b = <<>> \/ ~Want(t, b[2], ",") \/ ~Want(t, b[2] + 1, "q") THEN <<>> ELSE
                  LET c == ReadName(t, b[2] + 2, <<>>) IN IF c = <<>> \/ ~Want(t, c[2], ")") THEN <<>> ELSE <<<<a[1], b[1], c[1]>>, c[2] + 1>>
RECURSIVE ReadItems(_, _, _)
ReadItems(t, p, acc) == IF Want(t, p, "]") /\ p = Len(t) THEN <<acc>>
                        ELSE LET i == ReadItem(t, p) IN IF i = <<>> \/ ~Want(t, i[2], ",") THEN <<>> ELSE ReadItems(t, i[2] + 1, Append(acc, i[1]))
FromText(t) == IF ~Want(t, 1, "[") THEN <<>> ELSE ReadItems(t, 2, <<>>)

(* ---- a text that was damaged: cut short, continued, with something missing, doubled or replaced ---- *)
Place(t, u) == 1 + (u * Len(t)) \div 1000
Damaged(t, d) == LET p == Place(t, d[2]) a == SubSeq(t, 1, p - 1) z == SubSeq(t, p + 1, Len(t)) IN
                 CASE d[1] = "cut" -> a
                   [] d[1] = "add" -> t \o <<t[p]>>
                   [] d[1] = "drop" -> a \o z
                   [] d[1] = "double" -> a \o <<t[p], t[p]>> \o z
                   [] OTHER -> a \o <<d[1]>> \o z

(* ---- the binary form: a header of four bytes or of one, plain or compressed content, at some offset from a multiple of eight ---- *)
Long(v) == 16 + FoldLeft(+, 0, [i \in DOMAIN v |-> 16 + Len(v[i][3])])
Mem(v) == [at |-> "memory", head |-> 4, packed |-> FALSE, off |-> 0, data |-> v, len |-> Long(v)]
Shorten(f) == IF f.len < 126 THEN [f EXCEPT !.head = 1] ELSE f
(* compressing keeps runs: a value is packed as <<count, item>> *)
RECURSIVE Pack(_)
Pack(v) == IF v = <<>> THEN <<>> ELSE LET r == Pack(Tail(v)) IN IF r # <<>> /\ r[1][2] = v[1] THEN <<<<r[1][1] + 1, v[1]>>>> \o Tail(r) ELSE <<<<1, v[1]>>>> \o r
Unpack(p) == FoldLeft(\o, <<>>, [i \in DOMAIN p |-> [k \in 1..p[i][1] |-> p[i][2]]])
Press(f) == IF f.len >= 126 THEN [f EXCEPT !.packed = TRUE, !.data = Pack(@)] ELSE f
Detoast(f) == Mem(IF f.packed THEN Unpack(f.data) ELSE f.data)

Media == {"P", "M", "X", "E"}   \* storage plain, main, extended, external
Stored(f, m, off) == LET g == CASE m = "P" -> f [] m = "M" -> Press(f) [] m = "X" -> Press(f) [] OTHER -> f
                     IN [(IF m = "P" THEN g ELSE Shorten(g)) EXCEPT !.at = IF m \in {"X", "E"} /\ f.len >= 126 THEN "external" ELSE "table", !.off = off]

Start(rs) == damage \in Damages /\ rows = rs /\ form = Mem(rs) /\ path = <<>> /\ done = FALSE
Init == session = 0 /\ base = 0 /\ \E n \in Sizes : \E rs \in [1..n -> Times \X Nums \X Names] : Start(rs)
RECURSIVE RandName(_, _)
RandName(n, cs) == IF n = 0 THEN <<>> ELSE Append(RandName(n - 1, cs), RandomElement(cs))
RECURSIVE RandRows(_, _, _, _)
RandRows(n, ts, ns, ss) == IF n = 0 THEN <<>> ELSE Append(RandRows(n - 1, ts, ns, ss), <<RandomElement(ts), RandomElement(ns), RandomElement(ss)>>)
(* a few classes each, so that the values are not all extreme *)
InitRandom == rows = <<>> /\ form = Mem(<<>>) /\ path = <<>> /\ done = FALSE /\ session = -1 /\ base = 0 /\ damage = <<"cut", 0>>
Draw == \E b \in {RandomElement(0..3)} : \E cs \in {IF b = 1 THEN Chars \cap Narrow ELSE Chars} : \E n \in {RandomElement(Sizes)}, s \in {RandomElement(0..5)}, t1 \in {RandomElement(Times)}, t2 \in {RandomElement(Times)}, x \in {RandomElement(1..4)},
           n1 \in {RandomElement(Nums)}, n2 \in {RandomElement(Nums)}, s1 \in {RandName(RandomElement({0, 1, 2, 3, 5, 40}), cs)}, s2 \in {RandName(RandomElement({0, 1, 2, 3, 5, 40}), cs)}, s3 \in {RandName(RandomElement({0, 1, 3}), cs)},
           dk \in {RandomElement(Damages)}, dp \in {RandomElement(0..999)} :
           \E rs \in {RandRows(n, IF x = 1 THEN {t1, t2} ELSE {t \in Times : t >= 0}, IF x \in {1, 2} THEN {n1, n2} ELSE {k \in Nums : k >= 0}, {s1, s2, s3})} :
              rows' = rs /\ form' = Mem(rs) /\ session' = s /\ base' = b /\ damage' = <<dk[1], dp>> /\ UNCHANGED <<path, done>>

Step(p, f) == Len(path) < MaxSteps /\ path' = Append(path, p) /\ form' = f /\ UNCHANGED <<rows, base, session, damage, done>>
Text == /\ form.at = "memory" /\ FromText(ToText(form.data)) # <<>> /\ Step("T", Mem(FromText(ToText(form.data))[1]))
InArray == form.at = "memory" /\ Step("A", [form EXCEPT !.off = 4])      \* elements of arrays are aligned to four bytes only
InRow(off) == form.at = "memory" /\ Step("R", [Shorten(form) EXCEPT !.at = "row", !.off = off])
Store(m, off) == form.at \in {"memory", "row"} /\ Step(m, Stored(Detoast(form), m, off))
Ready == form.at = "memory" /\ form.off = 0 /\ ~form.packed /\ form.head = 4
Fetch == ~Ready /\ path' = path /\ form' = Detoast(form) /\ UNCHANGED <<rows, base, session, damage, done>>
Finish == Ready /\ path # <<>> /\ ~done /\ done' = TRUE /\ UNCHANGED <<rows, form, path, base, session, damage>>
Next == /\ ~done
        /\ Text \/ InArray \/ Fetch \/ Finish \/ (\E off \in {0, 1} : InRow(off)) \/ (\E m \in Media, off \in {0, 1, 4} : Store(m, off))
Spec == Init /\ [][Next]_vars
NextRandom == /\ ~done
              /\ IF session = -1 THEN Draw ELSE IF ~Ready THEN Fetch
                 ELSE \E x \in {RandomElement(1..9)}, m \in {RandomElement(Media)} :
                    IF Len(path) = MaxSteps \/ (path # <<>> /\ x = 9) THEN Finish
                    ELSE IF x <= 3 THEN Text ELSE IF x = 4 THEN InArray ELSE IF x = 5 THEN InRow(1) ELSE Store(m, 1)
SpecRandom == InitRandom /\ [][NextRandom]_vars

-----------------------------------------------------------------------------
(* what a representation means, whatever was done to it *)
Meaning(f) == IF f.packed THEN Unpack(f.data) ELSE f.data
Preserved == Meaning(form) = rows
(* the text form can be read, and says the same; no text is a proper beginning of it that also reads *)
Readable == path = <<>> /\ Len(rows) <= 4 => LET t == ToText(rows) IN FromText(t) = <<rows>> /\ \A k \in 1..(Len(t) - 1) : FromText(SubSeq(t, 1, k)) = <<>>
(* a damaged text is refused, or read as a value of the type; one that was cut or continued is refused *)
Item3(r) == r[1] \in Times \cup Nums \cup {NULL} /\ r[2] \in Times \cup Nums \cup {NULL}
Robust == path = <<>> /\ Len(rows) <= 4 => LET w == FromText(Damaged(ToText(rows), damage)) IN
          IF damage[1] \in {"cut", "add"} THEN w = <<>> ELSE w = <<>> \/ \A i \in DOMAIN w[1] : Item3(w[1][i])
(* a short header only on short values, packed content only on long ones *)
Headers == (form.head = 1 => form.len < 126) /\ (form.packed => form.len >= 126)
(* whatever is read from a text of a database has only characters that the database has *)
Fits == base = 1 => \A i \in DOMAIN Meaning(form) : \A k \in DOMAIN Meaning(form)[i][3] : Meaning(form)[i][3][k] \in Narrow
EmitCase == done => Emit([rows |-> rows, base |-> base, path |-> path, session |-> session, damage |-> damage])
=============================================================================
