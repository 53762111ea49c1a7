------------------------------- MODULE Render -------------------------------
(* to_text and to_plotly: a timevector written out for a program to read.                                                           *)
(*                                                                                                                                  *)
(* A vector is built point by point (Push), perhaps sorted; a reader (the machine's second half) takes the rendered lists apart     *)
(* again, one entry of each list at a time, and must come by the points of the vector in their order.  A point is <<time, value>>   *)
(* with a value that is a number (an index into a list of numbers the driver chooses), "null", or "huge" (not finite: refused).     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Times, Vals, MaxPoints
VARIABLES vec, phase, read
vars == <<vec, phase, read>>

Null == -1
Huge == -2

Refused(s) == \E i \in 1 .. Len(s) : s[i][2] = Huge
TimesOf(s) == [i \in 1 .. Len(s) |-> s[i][1]]
ValsOf(s) == [i \in 1 .. Len(s) |-> s[i][2]]

Init == vec = <<>> /\ phase = "build" /\ read = <<>>
Add(t, v) == phase = "build" /\ Len(vec) < MaxPoints /\ vec' = Append(vec, <<t, v>>) /\ UNCHANGED <<phase, read>>
Push == \E t \in Times, v \in Vals \cup {Null, Huge} : Add(t, v)
RenderIt == phase = "build" /\ phase' = (IF Refused(vec) THEN "refused" ELSE "read") /\ UNCHANGED <<vec, read>>
(* the reader pairs the heads of what is left of both lists *)
ReadOne == phase = "read" /\ Len(read) < Len(vec)
           /\ LET k == Len(read) + 1 IN read' = Append(read, <<TimesOf(vec)[k], ValsOf(vec)[k]>>)
           /\ UNCHANGED <<vec, phase>>
Next == Push \/ RenderIt \/ ReadOne
Spec == Init /\ [][Next]_vars
(* random vectors: long ones, with and without nulls, seldom a value that is not finite *)
RandomPush == \E t \in {RandomElement(Times)}, k \in {RandomElement(1 .. 40)}, v \in {RandomElement(Vals)} :
                Add(t, IF k = 1 THEN Huge ELSE IF k < 8 /\ Len(vec) > 3 THEN Null ELSE v)
RandomRender == \E k \in {RandomElement(1 .. MaxPoints)} : k <= Len(vec) /\ RenderIt
SpecRandom == Init /\ [][RandomPush \/ RandomRender \/ ReadOne]_vars

RoundTrip == phase = "read" /\ Len(read) = Len(vec) => read = vec
NeverHuge == phase = "read" => \A i \in 1 .. Len(read) : read[i][2] # Huge
EmitCase == (phase = "refused" \/ (phase = "read" /\ Len(read) = Len(vec))) => PrintT("@@" \o ToJson([vec |-> vec, refused |-> phase = "refused"]))
=============================================================================
