------------------------------- MODULE MC_P29 -------------------------------
EXTENDS Timer, McKit
CONSTANTS MaxOps, MaxNow, Timers
VARIABLES ts, now, span, hist
\* span: what each timer has to measure, kept independently: time since its
\* last start as long as it runs, frozen by a stop
view == <<ts, now, span>>
At(n) == <<n, n>>
Init == /\ now = 0 /\ hist = <<>>
        /\ ts = [i \in Timers |-> NewTimer(At(0))]
        /\ span = [i \in Timers |-> [run |-> TRUE, ms |-> 0, since |-> 0]]
Do(op, i) ==
  /\ ts' = [ts EXCEPT ![i] = TimerEff(@, op, At(now))]
  /\ span' = [span EXCEPT ![i] =
       CASE op = "start" -> [run |-> TRUE, ms |-> 0, since |-> 0]
         [] op = "stop"  -> [run |-> FALSE, ms |-> @.since, since |-> @.since]
         [] OTHER -> @]
  /\ hist' = Append(hist, <<op, i>>)
  /\ UNCHANGED now
Tick == /\ now < MaxNow /\ now' = now + 1
        /\ span' = [i \in Timers |-> [span[i] EXCEPT !.since = @ + 1]]
        /\ hist' = Append(hist, <<"tick", 0>>)
        /\ UNCHANGED ts
Next == /\ Len(hist) < MaxOps
        /\ (Tick \/ \E op \in {"start", "stop"}, i \in Timers : Do(op, i))
        /\ Emit(hist')
Meaning == \A i \in Timers :
  LET want == IF span[i].run THEN span[i].since ELSE span[i].ms
  IN  Duration(ts[i], At(now)) = <<want, want>> /\ want >= 0
\* the text adds up, over a set of durations around all thresholds
Near(x) == {x - 1, x, x + 1}
Some == {0, 1, 999} \cup Near(1000) \cup Near(60000) \cup Near(3600000) \cup Near(7261001) \cup Near(86399999)
        \cup {x + y : x \in Near(3600000) \cup Near(7200000), y \in Near(60000) \cup Near(1000)}
RECURSIVE Sum(_)
Sum(us) == IF us = <<>> THEN 0 ELSE us[1][2] * UnitMs(us[1][1]) + Sum(SubSeq(us, 2, Len(us)))
AddsUp == hist = <<>> =>
  \A m \in {x \in Some : x < DayMs}, d \in {0, 1, 2, 400}, f \in {0, 500000} :
    LET u == TextUnits(d, m, f)
        small == SelectSeq(u, LAMBDA x : x[1] # "days")
        days == IF u[1][1] = "days" THEN u[1][2] ELSE 0
    IN  /\ Sum(small) + (IF days = d THEN 0 ELSE -DayMs * (d - days)) = m
        /\ u[Len(u)][1] = "milliseconds" /\ u[Len(u)][3] = f
        /\ \A i \in 1 .. Len(u) : u[i][2] >= 0
=============================================================================
