------------------------------- MODULE Tr_P18 -------------------------------
(* e.log: the log; e.want: the classifiers [name, keys] asked for; e.classes:*)
(* what each way of asking returned, with the keys it was asked for; e.known:*)
(* the classifiers covered; e.bounds, e.each: bounds of log and traces.      *)
EXTENDS TraceKit, Summary
TInit(case) == 0
All(e) == {e.want[i] : i \in 1 .. Len(e.want)}
TStep(case, s, e) ==
  LET n == Len(EventsOf(e.log))
  IN  Res(s, Clause("traces", e.ntraces = Len(e.log)) \cup Clause("events", e.nevents = n)
             \cup Clause("classifiers", {e.known[i] : i \in 1 .. Len(e.known)} = All(e))
             \cup UNION {Show(ClassesOf(e.classes[i].keys, e.log), e.classes[i]) : i \in 1 .. Len(e.classes)}
             \cup Clause("sizes add up", \A i \in 1 .. Len(e.classes) : SumSizes(e.classes[i].classes, 1) = n)
             \cup ShowBounds(BoundsOf(EventsOf(e.log)), e.bounds)
             \cup UNION {ShowBounds(BoundsOf(e.log[i]), e.each[i]) : i \in 1 .. Len(e.log)}
             \cup Clause("log", e.samelog) \cup Clause("log changed", ~e.changed))
=============================================================================
