------------------------------ MODULE Temporal ------------------------------
(* Dates, instants and the XES timestamp text.  Instants are triples         *)
(* <<day, second of day, microsecond>>; day 0 is 1970-01-01.                 *)
EXTENDS Integers, Sequences

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

\* days from civil date, proleptic Gregorian calendar (count from year 1)
BeforeYear(y) == 365 * (y - 1) + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DayOf(y, m, d) == BeforeYear(y) + CumDays[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1 - 719162

\* an instant from local fields and a zone offset in minutes
Instant(y, m, d, h, mi, s, us, off) ==
  LET sec == h * 3600 + mi * 60 + s - off * 60
  IN  <<DayOf(y, m, d) + (sec \div 86400), sec % 86400, us>>     \* \div and % floor

\* a datetime as observed: <<y, mo, d, h, mi, s, us, off>>; off = Naive counts as UTC
Naive == 99999
InstantOf(f) == Instant(f[1], f[2], f[3], f[4], f[5], f[6], f[7], IF f[8] = Naive THEN 0 ELSE f[8])
ToMilli(i) == <<i[1], i[2], i[3] \div 1000>>

InstantLess(a, b) == \/ a[1] < b[1]
                     \/ a[1] = b[1] /\ a[2] < b[2]
                     \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]

-----------------------------------------------------------------------------
\* Text

Chr(t, i) == IF i >= 1 /\ i <= Len(t) THEN SubSeq(t, i, i) ELSE ""
DigitVal == [x \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
              CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "4" -> 4
                [] x = "5" -> 5 [] x = "6" -> 6 [] x = "7" -> 7 [] x = "8" -> 8 [] x = "9" -> 9]
IsDigit(x) == x \in DOMAIN DigitVal
RECURSIVE Num(_, _, _)     \* the number written in t from i to j
Num(t, i, j) == IF j < i THEN 0 ELSE 10 * Num(t, i, j - 1) + DigitVal[Chr(t, j)]
AllDigits(t, i, j) == \A n \in i .. j : IsDigit(Chr(t, n))

\* Strict layout: yyyy-mm-ddThh:mm:ss[.f{1,6}][Z | (+|-)hh:mm]
RECURSIVE DigitRun(_, _)
DigitRun(t, i) == IF IsDigit(Chr(t, i)) THEN 1 + DigitRun(t, i + 1) ELSE 0
FracLen(t) == IF Chr(t, 20) = "." THEN DigitRun(t, 21) ELSE 0
ZoneAt(t) == IF Chr(t, 20) = "." THEN 21 + FracLen(t) ELSE 20
Strict(t) ==
  /\ Len(t) >= 19
  /\ AllDigits(t, 1, 4) /\ Chr(t, 5) = "-" /\ AllDigits(t, 6, 7) /\ Chr(t, 8) = "-" /\ AllDigits(t, 9, 10)
  /\ Chr(t, 11) = "T"
  /\ AllDigits(t, 12, 13) /\ Chr(t, 14) = ":" /\ AllDigits(t, 15, 16) /\ Chr(t, 17) = ":" /\ AllDigits(t, 18, 19)
  /\ Chr(t, 20) = "." => FracLen(t) \in 1 .. 6
  /\ LET z == ZoneAt(t)
     IN  \/ Len(t) = z - 1
         \/ Len(t) = z /\ Chr(t, z) = "Z"
         \/ /\ Len(t) = z + 5 /\ Chr(t, z) \in {"+", "-"}
            /\ AllDigits(t, z + 1, z + 2) /\ Chr(t, z + 3) = ":" /\ AllDigits(t, z + 4, z + 5)
HasZone(t) == Len(t) >= ZoneAt(t)
Pow10 == <<100000, 10000, 1000, 100, 10, 1>>
Micros(t) == IF FracLen(t) = 0 THEN 0 ELSE Num(t, 21, 20 + FracLen(t)) * Pow10[FracLen(t)]
OffsetMin(t) == LET z == ZoneAt(t)
                IN  IF Chr(t, z) \in {"+", "-"}
                    THEN (IF Chr(t, z) = "-" THEN -1 ELSE 1) * (60 * Num(t, z + 1, z + 2) + Num(t, z + 4, z + 5))
                    ELSE 0
\* fields of a strict text
FieldsOf(t) == <<Num(t, 1, 4), Num(t, 6, 7), Num(t, 9, 10), Num(t, 12, 13), Num(t, 15, 16), Num(t, 18, 19),
                 Micros(t), OffsetMin(t)>>
InRange(f) == /\ f[1] >= 1 /\ f[2] \in 1 .. 12
              /\ f[3] \in 1 .. DaysIn(f[1], f[2])
              /\ f[4] \in 0 .. 23 /\ f[5] \in 0 .. 59 /\ f[6] \in 0 .. 59
              /\ f[8] > -1440 /\ f[8] < 1440
ZoneMinutes(t) == LET z == ZoneAt(t) IN IF Chr(t, z) \in {"+", "-"} THEN Num(t, z + 4, z + 5) ELSE 0
Denotes(t) == Strict(t) /\ InRange(FieldsOf(t)) /\ ZoneMinutes(t) < 60

\* The same layout with numbers of other lengths and white space around the
\* parts, or a small t: what a lenient reader may take; nothing is claimed about these.
RECURSIVE Skel(_, _, _)
Skel(t, i, prev) ==
  IF i > Len(t) THEN ""
  ELSE LET x == Chr(t, i)
       IN  IF IsDigit(x) THEN (IF prev THEN "" ELSE "9") \o Skel(t, i + 1, TRUE)
           ELSE IF x \in {" ", "_"} THEN Skel(t, i + 1, prev)
           ELSE x \o Skel(t, i + 1, FALSE)
Lenient(t) == /\ ~Strict(t)
              /\ Skel(t, 1, FALSE) \in
                   {"9-9-9" \o x \o "9:9:9" \o f \o z : x \in {"T", "t"}, f \in {"", ".9"}, z \in {"", "Z", "+9:9", "-9:9"}}

=============================================================================
