------------------------------- MODULE Timer -------------------------------
(* P29: a timer.  A clock reading is an interval <<lo, hi>> in which the     *)
(* real reading lies (milliseconds); the model checker uses exact readings.  *)
EXTENDS Integers, Sequences

Running == <<-1, -1>>
NewTimer(now) == [start |-> now, stop |-> Running]
\* effect of an operation at a clock reading
TimerEff(t, op, now) ==
  CASE op = "start" -> NewTimer(now)
    [] op = "stop"  -> [t EXCEPT !.stop = now]
    [] OTHER        -> t
\* bounds of the duration asked for at a reading
Duration(t, now) == LET e == IF t.stop = Running THEN now ELSE t.stop
                    IN  <<IF e[1] > t.start[2] THEN e[1] - t.start[2] ELSE 0, e[2] - t.start[1]>>

(* The text of a duration of d days, m milliseconds and f millionths of a    *)
(* millisecond (d, m, f naturals, m < 86400000): the units with amounts.     *)
DayMs == 86400000
Exceeds(m, f, unit) == m > unit \/ (m = unit /\ f > 0)
RECURSIVE Units(_, _, _)
Units(m, f, us) ==
  IF us = <<>> THEN <<<<"milliseconds", m, f>>>>
  ELSE IF Exceeds(m, f, us[1][2])
       THEN <<<<us[1][1], m \div us[1][2], 0>>>> \o Units(m % us[1][2], f, SubSeq(us, 2, Len(us)))
       ELSE Units(m, f, SubSeq(us, 2, Len(us)))
SmallUnits == <<<<"hours", 3600000>>, <<"minutes", 60000>>, <<"seconds", 1000>>>>
TextUnits(d, m, f) ==
  IF d > 1 \/ (d = 1 /\ (m > 0 \/ f > 0)) THEN <<<<"days", d, 0>>>> \o Units(m, f, SmallUnits)
  ELSE Units(d * DayMs + m, f, SmallUnits)
UnitMs(u) == CASE u = "hours" -> 3600000 [] u = "minutes" -> 60000 [] u = "seconds" -> 1000 [] OTHER -> 1
=============================================================================
