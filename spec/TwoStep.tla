------------------------------- MODULE TwoStep -------------------------------
(* PostgreSQL's partial aggregation (property C01): rows are fed to partial states, which are serialized and   *)
(* deserialized, combined in any order and finalized once.  A row is <<time, value, key>>, times distinct.     *)
(* A state is abstracted to what it has seen: the rows in the order fed, those not yet sealed (loose), and the *)
(* time ranges of its sealed chunks (an aggregate over time seals its rows into a chunk when it is shipped or combined). *)
EXTENDS Summary, TLC
CONSTANTS Sizes,        \* numbers of rows
          Vals, Keys, Slots, MaxShips, MaxMoves,   \* MaxMoves: combinations of states, empty ones included
          EmitAll
VARIABLES rows, contig, pend, slot, prog, ships, moves, mayerr, done
vars == <<rows, contig, pend, slot, prog, ships, moves, mayerr, done>>

(* a row without a value counts for some aggregates and not for others: Views says which rows count *)
Views == {"valued", "all"}
Counts(w, i) == w = "all" \/ rows[i][2] # NULL
Nothing == [fresh |-> TRUE, seen |-> <<>>, loose |-> [w \in Views |-> {}], chunks |-> [w \in Views |-> {}], sum |-> Empty]
Time(i) == rows[i][1]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Hull(S) == <<MinOf({c[1] : c \in S}), MaxOf({c[2] : c \in S})>>
LooseChunk(s, w) == IF s.loose[w] = {} THEN {} ELSE {<<MinOf({Time(i) : i \in s.loose[w]}), MaxOf({Time(i) : i \in s.loose[w]})>>}
All(s, w) == s.chunks[w] \cup LooseChunk(s, w)
(* two chunks cover common time; one chunk cannot hide as the same as another, since times are distinct *)
Overlap(S) == \E a, b \in S : a # b /\ a[1] <= b[2] /\ b[1] <= a[2]
Seal(S) == IF S = {} THEN {} ELSE {Hull(S)}
Sealed(s) == [s EXCEPT !.fresh = FALSE, !.loose = [w \in Views |-> {}], !.chunks = [w \in Views |-> Seal(All(s, w))]]

RECURSIVE Rand(_)
Rand(n) == IF n = 0 THEN <<>> ELSE Append(Rand(n - 1), <<3 * n + RandomElement(0..2), RandomElement(Vals), RandomElement(Keys)>>)
Start(rs, c) == rows = rs /\ contig = c /\ pend = DOMAIN rs
Rest == slot = [p \in Slots |-> Nothing] /\ prog = <<>> /\ ships = 0 /\ moves = 0 /\ mayerr = [w \in Views |-> FALSE] /\ done = FALSE
Init == (\E n \in Sizes : \E rs \in [1..n -> Vals \X Keys] : Start([i \in 1..n |-> <<3 * i, rs[i][1], rs[i][2]>>], FALSE)) /\ Rest
InitRandom == Start(<<>>, FALSE) /\ Rest
(* the first step of a random behaviour draws the rows *)
Draw == \E n \in {RandomElement(Sizes)}, c \in {RandomElement(BOOLEAN)} : \E rs \in {Rand(n)} :
        rows' = rs /\ contig' = c /\ pend' = DOMAIN rs /\ UNCHANGED <<slot, prog, ships, moves, mayerr, done>>

(* PostgreSQL feeds rows only to states that have not been shipped or combined *)
Feed(p, i) == /\ i \in pend /\ slot[p].fresh /\ pend' = pend \ {i}
              /\ slot' = [slot EXCEPT ![p] = [@ EXCEPT !.seen = Append(@, i), !.loose = [w \in Views |-> IF Counts(w, i) THEN @[w] \cup {i} ELSE @[w]], !.sum = Merge(@, RowSum(rows[i]))]]
              /\ prog' = Append(prog, <<"t", p, i>>) /\ UNCHANGED <<rows, contig, ships, moves, mayerr, done>>
Joint(a, b) == [fresh |-> FALSE, seen |-> a.seen \o b.seen, loose |-> [w \in Views |-> a.loose[w] \cup b.loose[w]], chunks |-> [w \in Views |-> a.chunks[w] \cup b.chunks[w]], sum |-> Merge(a.sum, b.sum)]
(* combining seals both parts first, and then what they cover together *)
Refuses(a, b, w) == Overlap(All(a, w)) \/ Overlap(All(b, w)) \/ Overlap(Seal(All(a, w)) \cup Seal(All(b, w)))
Combine(a, b) == /\ a # b /\ moves' = moves + 1
                 /\ slot' = [slot EXCEPT ![a] = Sealed(Joint(@, slot[b])), ![b] = Nothing]
                 /\ mayerr' = [w \in Views |-> mayerr[w] \/ Refuses(slot[a], slot[b], w)]
                 /\ prog' = Append(prog, <<"c", a, b>>) /\ UNCHANGED <<rows, contig, pend, ships, done>>
Ship(p) == /\ ships' = ships + 1 /\ mayerr' = [w \in Views |-> mayerr[w] \/ Overlap(All(slot[p], w))] /\ slot' = [slot EXCEPT ![p] = Sealed(@)]
           /\ prog' = Append(prog, <<"s", p, 0>>) /\ UNCHANGED <<rows, contig, pend, moves, done>>
Alone(p) == \A q \in Slots : q = p \/ slot[q].seen = <<>>
Final(p) == /\ pend = {} /\ Alone(p) /\ done' = TRUE /\ mayerr' = [w \in Views |-> mayerr[w] \/ Overlap(All(slot[p], w))] /\ slot' = [slot EXCEPT ![p] = Sealed(@)]
            /\ prog' = Append(prog, <<"f", p, 0>>) /\ UNCHANGED <<rows, contig, pend, ships, moves>>

Next == /\ ~done
        /\ \E p, q \in Slots : \/ pend # {} /\ Feed(p, MinOf(pend)) /\ q = p
                               \/ pend # {} /\ Feed(p, MaxOf(pend)) /\ q = p
                               \/ moves < MaxMoves /\ Combine(p, q)
                               \/ ships < MaxShips /\ Ship(p) /\ q = p
                               \/ Final(p) /\ q = p
Spec == Init /\ [][Next]_vars

Home(i) == 1 + ((i - 1) * Cardinality(Slots)) \div Len(rows)
Fresh == {p \in Slots : slot[p].fresh}
(* states may move while rows are still coming, as long as some state can take the rest *)
Movable == IF pend = {} THEN Slots ELSE IF contig \/ Cardinality(Fresh) < 2 THEN Slots \ Fresh ELSE Slots \ {MinOf(Fresh)}
NextRandom == /\ ~done
              /\ IF rows = <<>> THEN Draw ELSE \E x \in {RandomElement(1..20)} :
                   IF pend # {} /\ (x <= 13 \/ Movable = {}) THEN \E i \in {RandomElement(pend)}, f \in {RandomElement(Fresh)} : Feed(IF contig THEN Home(i) ELSE f, i)
                   ELSE \E p \in {RandomElement(Movable)} :
                     IF x <= 16 /\ ships < MaxShips THEN Ship(p)
                     ELSE IF Alone(p) /\ pend = {} THEN Final(p)
                     ELSE \E q \in {RandomElement((Movable \cup {p}) \ (IF Movable = {p} THEN {} ELSE {p}))} :
                            IF p # q THEN Combine(p, q)
                            ELSE \E i \in {RandomElement(pend)}, f \in {RandomElement(Fresh)} : Feed(IF contig THEN Home(i) ELSE f, i)
SpecRandom == InitRandom /\ [][NextRandom]_vars

-----------------------------------------------------------------------------
Elems(s) == {s[i] : i \in DOMAIN s}
(* no row is lost or counted twice, wherever the states went *)
Conserve == /\ Elems(FoldLeft(\o, <<>>, [p \in 1..Cardinality(Slots) |-> slot[p].seen])) \cup pend = DOMAIN rows
            /\ FoldLeft(+, 0, [p \in 1..Cardinality(Slots) |-> Len(slot[p].seen)]) + Cardinality(pend) = Len(rows)
(* a state knows its rows and nothing else: the answer of a schedule is the answer of the rows *)
Refines == \A p \in Slots : slot[p].sum = Denotes([i \in DOMAIN slot[p].seen |-> rows[slot[p].seen[i]]])
(* states over disjoint stretches of time never refuse *)
NoRefusal == contig => ~mayerr["all"] \/ \E k \in DOMAIN prog : prog[k][1] = "c"
Ranges == \A p \in Slots, w \in Views : \A i \in Elems(slot[p].seen) : Counts(w, i) => \E c \in All(slot[p], w) : c[1] <= Time(i) /\ Time(i) <= c[2]
EmitCase == done => Emit([rows |-> rows, prog |-> prog, mayerr |-> mayerr["valued"], mayall |-> mayerr["all"]])
=============================================================================
