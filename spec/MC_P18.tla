------------------------------- MODULE MC_P18 -------------------------------
(* A log grows trace by trace and event by event while a summary is made of  *)
(* it in one pass; at every moment it says what the whole log says.          *)
EXTENDS Summary, McKit
CONSTANTS MaxTraces, MaxEvents
VARIABLES log, s
Dates == {<<>>, <<2017, 1, 1, 0, 0, 0, 0, 0>>, <<2017, 1, 1, 0, 59, 0, 0, 60>>, <<2017, 1, 2, 0, 0, 0, 0, Naive>>}
Events == {<<x, d>> : x \in {<<>>, <<<<<<1>>, <<5>>>>>>, <<<<<<1>>, <<6>>>>, <<<<2>>, <<5>>>>>>}, d \in Dates}
Init == log = <<>> /\ \E ks \in {<<<<1>>>>, <<<<2>>, <<1>>>>} : s = Empty(ks)
Trace == /\ Len(log) < MaxTraces
         /\ log' = Append(log, <<>>)
         /\ s' = PassTrace(s)
         /\ Emit(log')
Event == /\ log # <<>> /\ Len(EventsOf(log)) < MaxEvents
         /\ \E e \in Events : /\ log' = [log EXCEPT ![Len(log)] = Append(@, e)]
                              /\ s' = PassEvent(s, e)
                              /\ (IF Len(s.keys) = 1 THEN Emit(log') ELSE TRUE)
Next == Trace \/ Event
OnePass == /\ s.traces = Len(log) /\ s.events = Len(EventsOf(log))
           /\ Harmonize(s.classes) = ClassesOf(s.keys, log)
           /\ s.bounds = BoundsOf(EventsOf(log))
           /\ \A i \in 1 .. Len(log) : s.each[i] = BoundsOf(log[i])
\* the log's bounds are those of the bounds of its traces
RECURSIVE MergeAll(_, _)
MergeAll(bs, i) == IF i > Len(bs) THEN <<>> ELSE Merge(MergeAll(bs, i + 1), bs[i])
OfTraces == s.bounds = MergeAll(s.each, 1)
=============================================================================
