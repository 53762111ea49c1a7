------------------------------ MODULE Points ------------------------------
(* Rows and time-ordered points, shared by the time-series aggregates.      *)
(* A row is <<time, value>>; NULL marks an SQL NULL in either place.        *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC
LOCAL INSTANCE Json

NULL == -99

Usable(rows) == SelectSeq(rows, LAMBDA r : r[1] # NULL /\ r[2] # NULL)

(* index of the first-fed row with time t *)
FirstAt(rows, t) == CHOOSE i \in DOMAIN rows : rows[i][1] = t /\ \A j \in DOMAIN rows : rows[j][1] = t => i <= j

(* the points a set of rows denotes: time-ordered, one per time, the first-fed row of each time *)
PointsOf(rows) ==
    LET us == Usable(rows)
        ts == SetToSortSeq({us[i][1] : i \in DOMAIN us}, <)
    IN [k \in DOMAIN ts |-> us[FirstAt(us, ts[k])]]

SubSeqFrom(s, a) == SubSeq(s, a, Len(s))

(* writes one behaviour for the driver; always TRUE *)
Emit(r) == PrintT("@@" \o ToJson(r))
=============================================================================
