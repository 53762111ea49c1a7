------------------------------ MODULE Calendar ------------------------------
(* The calendar that days_in_month, month_normalize and to_epoch speak about, as a clock that ticks day by day.                    *)
(*                                                                                                                                  *)
(* The state is a date and the number of days since the epoch.  The length of a month is not a table entry of the state but what    *)
(* the clock does: a month has as many days as the clock ticks within it.  `ticks` counts them while the clock runs.                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS StartYear,     \* the clock starts on January 1st of this year ...
          StartDays,     \* ... which is so many days after 1970-01-01
          Years          \* and runs for so many years
VARIABLES y, m, d, days, ticks
vars == <<y, m, d, days, ticks>>

Leap(yy) == yy % 4 = 0 /\ (yy % 100 # 0 \/ yy % 400 = 0)
LastDay(yy, mm) == CASE mm \in {4, 6, 9, 11} -> 30 [] mm = 2 -> IF Leap(yy) THEN 29 ELSE 28 [] OTHER -> 31

Init == y = StartYear /\ m = 1 /\ d = 1 /\ days = StartDays /\ ticks = 1

NextDay == d < LastDay(y, m) /\ d' = d + 1 /\ ticks' = ticks + 1 /\ UNCHANGED <<y, m>> /\ days' = days + 1
NextMonth == d = LastDay(y, m) /\ m < 12 /\ m' = m + 1 /\ d' = 1 /\ ticks' = 1 /\ days' = days + 1 /\ y' = y
NextYear == d = LastDay(y, m) /\ m = 12 /\ m' = 1 /\ d' = 1 /\ ticks' = 1 /\ days' = days + 1 /\ y' = y + 1
Next == (y < StartYear + Years) /\ (NextDay \/ NextMonth \/ NextYear)
Spec == Init /\ [][Next]_vars

(* the closed form of the day count (days from the civil date): the clock and arithmetic agree *)
FDiv(a, b) == a \div b
DaysOf(yy, mm, dd) ==
  LET y1 == IF mm <= 2 THEN yy - 1 ELSE yy
      era == FDiv(y1, 400)
      yoe == y1 - era * 400
      mp == (mm + 9) % 12
      doy == ((153 * mp + 2) \div 5) + dd - 1
      doe == yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy
  IN era * 146097 + doe - 719468
Agrees == days = DaysOf(y, m, d)
Counted == ticks = d                                  \* the month so far is as long as the clock ticked in it
MonthLengths == d = LastDay(y, m) => ticks \in 28 .. 31
YearLengths == (m = 12 /\ d = 31) => days - DaysOf(y, 1, 1) + 1 = (IF Leap(y) THEN 366 ELSE 365)
(* one line per month, printed on its last day: year, month, length, day number of its first day *)
EmitCase == (d = LastDay(y, m) /\ y < StartYear + Years) => PrintT("@@" \o ToJson([y |-> y, m |-> m, len |-> ticks, first |-> days - ticks + 1]))
=============================================================================
