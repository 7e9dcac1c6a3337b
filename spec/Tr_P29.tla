------------------------------- MODULE Tr_P29 -------------------------------
EXTENDS TraceKit, Timer
Slack == 3   \* clock resolution and rounding, milliseconds
TInit(case) == <<>>
Within(v, b) == v + Slack >= b[1] /\ v - Slack <= b[2]
TStep(case, s, e) ==
  CASE e.op = "new" -> Ok(Append(s, NewTimer(e.now)))
    [] e.op \in {"start", "stop"} -> Ok([s EXCEPT ![e.t] = TimerEff(@, e.op, e.now)])
    [] e.op = "ask" ->
         Res(s, IF e.err # "" THEN {"fails"}
                ELSE Clause("negative", e.ms >= 0)
                     \cup Clause("duration", Within(e.ms, Duration(s[e.t], e.now)))
                     \* a stopped timer's text is the text of its duration
                     \cup (IF s[e.t].stop = Running THEN {} ELSE Clause("text", e.units = e.again)))
    [] e.op = "format" ->
         Res(s, IF e.err # "" THEN {"fails"} ELSE Clause("format", e.units = TextUnits(e.d, e.m, e.f)))
=============================================================================
