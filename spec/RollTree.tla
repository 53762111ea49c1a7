------------------------------- MODULE RollTree -------------------------------
(* Rolling up (property C02): rows are aggregated by group, groups of aggregates are rolled up, and the results   *)
(* rolled up again, up to a single aggregate.  Groups may be any sets of rows, or (contig) stretches of time, as   *)
(* aggregates over time need them.  Nodes without rows stand for NULL aggregates.                                  *)
EXTENDS Summary, TLC
CONSTANTS Sizes, Vals, Keys,
          MaxLeaves, MaxLevels, MaxNulls, EmitAll
VARIABLES rows, contig,
          leaf,      \* leaf[i]: the group of row i
          nodes,     \* the aggregates of the current level: [sum, seen (row numbers in the order fed)]
          levels,    \* for each level rolled up so far: the parent of each of its nodes and the order they are fed in
          nulls, done
vars == <<rows, contig, leaf, nodes, levels, nulls, done>>

Blank == [sum |-> Empty, seen |-> <<>>]
Start(rs, c) == rows = rs /\ contig = c /\ leaf = <<>> /\ nodes = <<Blank>> /\ levels = <<>> /\ nulls = 0 /\ done = FALSE
RECURSIVE Rand(_)
Rand(n) == IF n = 0 THEN <<>> ELSE Append(Rand(n - 1), <<3 * n + RandomElement(0..2), RandomElement(Vals), RandomElement(Keys)>>)
Init == \E n \in Sizes, c \in BOOLEAN : \E rs \in [1..n -> Vals \X Keys] : Start([i \in 1..n |-> <<3 * i, rs[i][1], rs[i][2]>>], c)
InitRandom == Start(<<>>, FALSE)
(* the first step of a random behaviour draws the rows *)
Draw == \E n \in {RandomElement(Sizes)}, c \in {RandomElement(BOOLEAN)} : \E rs \in {Rand(n)} : rows' = rs /\ contig' = c /\ UNCHANGED <<leaf, nodes, levels, nulls, done>>

Feeding == Len(leaf) < Len(rows)
(* the next row goes to a group that exists or to a new one; in time order only to the last one or a new one *)
Feed(g) == /\ Feeding /\ g \in 1..(Len(nodes) + 1) /\ g <= MaxLeaves /\ (contig => g >= Len(nodes))
           /\ leaf' = Append(leaf, g)
           /\ LET ns == IF g > Len(nodes) THEN Append(nodes, Blank) ELSE nodes
              IN nodes' = [ns EXCEPT ![g] = [sum |-> Merge(@.sum, RowSum(rows[Len(leaf) + 1])), seen |-> Append(@.seen, Len(leaf) + 1)]]
           /\ UNCHANGED <<rows, contig, levels, nulls, done>>
(* a NULL aggregate among the others, which then stay what they are *)
AddNull == /\ ~Feeding /\ nulls < MaxNulls /\ Len(levels) < MaxLevels /\ (Len(nodes) > 1 \/ levels = <<>>)
           /\ nulls' = nulls + 1 /\ nodes' = Append(nodes, Blank) /\ UNCHANGED <<rows, contig, leaf, levels, done>>
(* nodes [par |-> parent of each node, ord |-> position of each node among those fed] *)
Fed(par, ord, p) == SetToSortSeq({k \in DOMAIN nodes : par[k] = p}, LAMBDA a, b : ord[a] < ord[b])
Parents(par) == {par[k] : k \in DOMAIN nodes}
RollUp(par, ord) == /\ ~Feeding /\ Len(levels) < MaxLevels
                    /\ nodes' = [p \in 1..Cardinality(Parents(par)) |->
                          LET q == Fed(par, ord, p) IN [sum |-> MergeAll([j \in DOMAIN q |-> nodes[q[j]].sum]), seen |-> FoldLeft(\o, <<>>, [j \in DOMAIN q |-> nodes[q[j]].seen])]]
                    /\ levels' = Append(levels, [par |-> par, ord |-> ord]) /\ UNCHANGED <<rows, contig, leaf, nulls, done>>
(* in time order the groups of a rollup are consecutive too (nodes without rows go anywhere) *)
Numbered(par, n) == \A p \in 1..n : \E k \in DOMAIN par : par[k] = p
Steps(par) == \A k \in DOMAIN par : k < Len(par) => par[k] <= par[k + 1] \/ nodes[k + 1].seen = <<>>
Finish == ~Feeding /\ levels # <<>> /\ Len(nodes) = 1 /\ done' = TRUE /\ UNCHANGED <<rows, contig, leaf, nodes, levels, nulls>>

Next == /\ ~done
        /\ \/ \E g \in 1..MaxLeaves : Feed(g)
           \/ AddNull
           \/ \E par \in [DOMAIN nodes -> 1..(IF Len(levels) = MaxLevels - 1 THEN 1 ELSE 2)], down \in BOOLEAN :
                /\ Numbered(par, Cardinality(Parents(par))) /\ (contig => Steps(par))
                /\ RollUp(par, [k \in DOMAIN nodes |-> IF down THEN Len(nodes) - k ELSE k])
           \/ Finish
Spec == Init /\ [][Next]_vars

Shuffled(S) == LET RECURSIVE go(_) go(T) == IF T = {} THEN <<>> ELSE LET x == RandomElement(T) IN <<x>> \o go(T \ {x}) IN go(S)
(* at random: cut the nodes (in time order, or shuffled) into runs *)
RECURSIVE RunsTo(_)
RunsTo(n) == IF n = 1 THEN <<1>> ELSE LET q == RunsTo(n - 1) IN Append(q, q[n - 1] + RandomElement(0..1))
Cuts(n, last) == IF last THEN [k \in 1..n |-> 1] ELSE RunsTo(n)
NextRandom == /\ ~done
              /\ IF rows = <<>> THEN Draw ELSE IF Feeding THEN \E x \in {RandomElement(1..3)}, y \in {RandomElement(1..MaxLeaves)} :
                      Feed(IF contig THEN (IF x = 1 /\ Len(nodes) < MaxLeaves /\ nodes[1].seen # <<>> THEN Len(nodes) + 1 ELSE Len(nodes)) ELSE IF y > Len(nodes) THEN Len(nodes) + (IF nodes[1].seen = <<>> THEN 0 ELSE 1) ELSE y)
                 ELSE \E x \in {RandomElement(1..6)} :
                    IF x = 1 /\ nulls < MaxNulls /\ Len(levels) < MaxLevels /\ (Len(nodes) > 1 \/ levels = <<>>) THEN AddNull
                    ELSE IF levels # <<>> /\ Len(nodes) = 1 /\ (Len(levels) = MaxLevels \/ x <= 5) THEN Finish
                    ELSE \E cut \in {Cuts(Len(nodes), x = 2 \/ Len(levels) = MaxLevels - 1)}, perm \in {IF contig THEN [k \in DOMAIN nodes |-> k] ELSE Shuffled(DOMAIN nodes)},
                            ord \in {Shuffled(DOMAIN nodes)} : RollUp([k \in DOMAIN nodes |-> cut[perm[k]]], ord)
SpecRandom == InitRandom /\ [][NextRandom]_vars

-----------------------------------------------------------------------------
Elems(s) == {s[i] : i \in DOMAIN s}
(* every row is under exactly one node, however the rollups are nested *)
Partition == /\ UNION {Elems(nodes[k].seen) : k \in DOMAIN nodes} = 1..Len(leaf)
             /\ FoldLeft(+, 0, [k \in DOMAIN nodes |-> Len(nodes[k].seen)]) = Len(leaf)
(* every node is the summary of its rows; the last one of all rows *)
Refines == \A k \in DOMAIN nodes : nodes[k].sum = Denotes([i \in DOMAIN nodes[k].seen |-> rows[nodes[k].seen[i]]])
Whole == done => nodes[1].sum = Denotes(rows)
(* nodes over stretches of time stay apart, so that aggregates over time never have a reason to refuse *)
Apart == contig => \A a, b \in DOMAIN nodes : a < b => \A i \in Elems(nodes[a].seen), j \in Elems(nodes[b].seen) : i < j
SumLaws == Len(leaf) = 0 => Laws({Empty} \cup {RowSum(rows[i]) : i \in DOMAIN rows} \cup {Merge(RowSum(rows[i]), RowSum(rows[j])) : i, j \in DOMAIN rows})
EmitCase == done => Emit([rows |-> rows, leaf |-> leaf, levels |-> levels, contig |-> contig, nulls |-> nulls])
=============================================================================
