------------------------------- MODULE Upgrade -------------------------------
(* Installations of the toolkit and their updates.  Versions are 1 .. NV.  What a version consists of: objects that became stable    *)
(* in some version s (Sinces; 0 is before all of them) and stay for good - types, functions over them, aggregates and operators      *)
(* built of those - and experimental objects, which every version defines anew: a schema with types and functions in it, and the    *)
(* functions, operators and casts outside of it that mention one of those types.                                                     *)
(* An update from one version to a later one runs a script, which is made of the later version's install script and of the record   *)
(* of when what became stable (Script).  Statements run one after another, with the meaning they have in PostgreSQL (Run).           *)
(* Users make views and columns of what is installed.  The claims: no script fails (NoFailure), an update leaves exactly what a fresh *)
(* installation of its version has (Exact), and users lose nothing but what they made of experimental objects (Survive).             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS NV, Sinces, MaxUpdates, MaxUsers, EmitAll
VARIABLES inst, cat, users, ok, hist
vars == <<inst, cat, users, ok, hist>>

Stable(o) == o[1] \in {"type", "fn", "agg", "op"}
Replaceable(o) == o[1] \in {"fn", "agg"}                 \* there is a CREATE OR REPLACE for these; a type or an operator stays as it is
Revised(o) == o[1] \in {"fn", "agg", "xfn", "xop"}       \* bound to the library of a version
StableAt(s) == << <<"type", s>>, <<"fn", s>>, <<"agg", s>>, <<"op", s>> >>
Experimental == << <<"xschema", 0>>, <<"xtype", 0>>, <<"xfn", 0>>, <<"xop", 0>>, <<"xcast", 0>> >>
Needs(o) == CASE o[1] = "fn" -> {<<"type", o[2]>>}
              [] o[1] \in {"agg", "op"} -> {<<"type", o[2]>>, <<"fn", o[2]>>}
              [] o[1] = "xtype" -> {<<"xschema", 0>>}
              [] o[1] = "xfn" -> {<<"xschema", 0>>, <<"xtype", 0>>}
              [] o[1] \in {"xop", "xcast"} -> {<<"xtype", 0>>}
              [] OTHER -> {}

(* the install script of a version: what it defines, in an order in which it can be defined *)
Contents(v) == FlattenSeq([k \in 1 .. Cardinality({s \in Sinces : s <= v}) |-> StableAt(SetToSortSeq({s \in Sinces : s <= v}, <)[k])]) \o Experimental
Install(v) == [k \in 1 .. Len(Contents(v)) |-> <<"create", Contents(v)[k]>>]

(* the update script *)
Line(o, f) == IF ~Stable(o) \/ o[2] > f THEN <<"create", o>> ELSE IF Replaceable(o) THEN <<"replace", o>> ELSE <<"skip", o>>
Script(f, t) == << <<"drop", <<"xschema", 0>> >> >> \o [k \in 1 .. Len(Contents(t)) |-> Line(Contents(t)[k], f)]

(* what a statement does to an installation [cat, users, ok]; v is the version whose library it names *)
RECURSIVE Gone(_, _)
Gone(c, S) == LET T == S \cup {o \in DOMAIN c : Needs(o) \cap S # {}} IN IF T = S THEN S ELSE Gone(c, T)
Put(c, o, v) == [p \in DOMAIN c \cup {o} |-> IF p = o THEN v ELSE c[p]]
Exec(x, st, v) ==
    LET o == st[2] IN
    CASE st[1] = "skip" -> x
      [] st[1] = "drop" -> IF o \notin DOMAIN x.cat THEN x
                           ELSE LET g == Gone(x.cat, {o}) IN
                                [x EXCEPT !.cat = [p \in DOMAIN x.cat \ g |-> x.cat[p]], !.users = [k \in DOMAIN x.users |-> IF x.users[k].on \in g THEN [x.users[k] EXCEPT !.alive = FALSE] ELSE x.users[k]]]
      [] st[1] = "create" /\ o \in DOMAIN x.cat -> [x EXCEPT !.ok = FALSE]
      [] ~(Needs(o) \subseteq DOMAIN x.cat) -> [x EXCEPT !.ok = FALSE]
      [] OTHER -> [x EXCEPT !.cat = Put(x.cat, o, v)]
RunAll(x, script, v) == FoldLeft(LAMBDA y, st : Exec(y, st, v), x, script)
Empty == [p \in {} |-> 0]
Fresh(v) == RunAll([cat |-> Empty, users |-> <<>>, ok |-> TRUE], Install(v), v)

Now == [cat |-> cat, users |-> users, ok |-> ok]
Alive(us) == [k \in DOMAIN us |-> us[k].alive]
Updates == Cardinality({k \in DOMAIN hist : hist[k][1] = "update"})

Init == inst = 0 /\ cat = Empty /\ users = <<>> /\ ok = TRUE /\ hist = <<>>
Start(v) == inst = 0 /\ inst' = v /\ cat' = Fresh(v).cat /\ ok' = Fresh(v).ok /\ hist' = << <<"install", v>> >> /\ UNCHANGED users
Depend(o) == /\ inst # 0 /\ Len(users) < MaxUsers /\ o \in DOMAIN cat /\ o[1] \notin {"xschema", "xcast"}
             /\ users' = Append(users, [on |-> o, alive |-> TRUE]) /\ hist' = Append(hist, <<"user", o[1], o[2]>>) /\ UNCHANGED <<inst, cat, ok>>
Update(v) == /\ inst # 0 /\ v > inst /\ Updates < MaxUpdates
             /\ LET x == RunAll(Now, Script(inst, v), v) IN
                /\ cat' = x.cat /\ users' = x.users /\ ok' = x.ok
                /\ hist' = Append(hist, <<"update", v, Alive(x.users)>>)
             /\ inst' = v
Step == (\E v \in 1 .. NV : Start(v) \/ Update(v)) \/ \E o \in DOMAIN cat : Depend(o)
Spec == Init /\ [][Step]_vars

(* long histories over many versions *)
RandomStep == IF inst = 0 THEN \E v \in {RandomElement(1 .. NV - 1)} : Start(v)
              ELSE \E k \in {RandomElement(1 .. 3)} :
                   IF (k > 1 /\ Len(users) < MaxUsers) THEN \E o \in {RandomElement({p \in DOMAIN cat : p[1] \notin {"xschema", "xcast"}})} : Depend(o)
                   ELSE inst < NV /\ \E v \in {RandomElement(inst + 1 .. NV)} : \E far \in {RandomElement(1 .. 4)} : Update(IF far = 1 THEN NV ELSE v)
SpecRandom == Init /\ [][RandomStep]_vars

NoFailure == ok
Exact == inst # 0 => /\ DOMAIN cat = DOMAIN Fresh(inst).cat
                     /\ \A o \in DOMAIN cat : Revised(o) => cat[o] = inst
Survive == \A k \in DOMAIN users : Stable(users[k].on) => users[k].alive
Cut == LET n == Len(hist) IN n > 0 /\ hist[n][1] = "update" => \A k \in DOMAIN users : Stable(users[k].on) <=> users[k].alive
EmitCase == (hist # <<>> /\ hist[Len(hist)][1] = "update" /\ (EmitAll \/ Updates = MaxUpdates \/ inst = NV)) => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
