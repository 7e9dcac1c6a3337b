------------------------------- MODULE MC_P07 -------------------------------
(* A clock that ticks day by day: the calendar of the oracle is a calendar   *)
(* (every civil date has the next day number), and the text of every date    *)
(* with every zone of a set denotes it, shifted by the zone.                 *)
EXTENDS Temporal, McKit
CONSTANTS From, To
Zones == {0, 330, -210, 840, -720, 1439, -1439, 1, -1, 59, -59, 60}
VARIABLES y, m, d, n
vars == <<y, m, d, n>>
\* chains from many years at once: each runs into the start of the next
Init == y \in {x \in From .. To : (x - From) % 100 = 0} /\ m = 1 /\ d = 1 /\ n = DayOf(y, 1, 1)
Next == /\ ~(y = To /\ m = 12 /\ d = 31)
        /\ n' = n + 1
        /\ IF d < DaysIn(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE /\ d' = 1
                /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y ELSE m' = 1 /\ y' = y + 1
CalendarOk == DayOf(y, m, d) = n
EpochOk == DayOf(1970, 1, 1) = 0 /\ DayOf(2000, 2, 29) = 11016 /\ DayOf(1, 1, 1) = -719162

D2(x) == (IF x < 10 THEN "0" ELSE "") \o ToString(x)
D4(x) == (IF x < 10 THEN "000" ELSE IF x < 100 THEN "00" ELSE IF x < 1000 THEN "0" ELSE "") \o ToString(x)
Abs(x) == IF x < 0 THEN -x ELSE x
ZoneText(z) == IF z = 0 THEN "Z"
               ELSE (IF z < 0 THEN "-" ELSE "+") \o D2(Abs(z) \div 60) \o ":" \o D2(Abs(z) % 60)
Text(z) == D4(y) \o "-" \o D2(m) \o "-" \o D2(d) \o "T23:59:58.007" \o ZoneText(z)
TextOk == (y \in {1999, 2000} \/ (y % 50 \in {0, 4} /\ d \in {1, 28, DaysIn(y, m)})) => \A z \in Zones :
            /\ Denotes(Text(z)) /\ ~Lenient(Text(z))
            /\ InstantOf(FieldsOf(Text(z))) = InstantOf(<<y, m, d, 23, 59, 58, 7000, z>>)
            /\ LET i == InstantOf(FieldsOf(Text(z)))     \* shifting by the zone is exact
               IN  (i[1] - n) * 86400 + i[2] = 86398 - 60 * z /\ i[3] = 7000
=============================================================================
