------------------------------ MODULE Summary ------------------------------
(* P18: what a summary says of a log.  A log is a sequence of traces, each a *)
(* sequence of events <<attributes as <<key, text>> pairs, date or <<>> >>.  *)
EXTENDS EventClasses, Bounds
RECURSIVE Flat(_, _)
Flat(log, i) == IF i > Len(log) THEN <<>> ELSE log[i] \o Flat(log, i + 1)
EventsOf(log) == Flat(log, 1)
ClassesOf(ks, log) == LET es == EventsOf(log) IN Harmonize(AddAll(Fresh, [j \in 1 .. Len(es) |-> Identity(ks, es[j][1])], 1))
RECURSIVE SpanOf(_, _, _)
SpanOf(es, i, b) == IF i > Len(es) THEN b ELSE SpanOf(es, i + 1, Register(b, es[i][2]))
BoundsOf(es) == SpanOf(es, 1, <<>>)
RECURSIVE SumSizes(_, _)
SumSizes(cs, i) == IF i > Len(cs) THEN 0 ELSE cs[i][3] + SumSizes(cs, i + 1)
\* the same in one pass, an event at a time
Empty(ks) == [traces |-> 0, events |-> 0, classes |-> Fresh, bounds |-> <<>>, each |-> <<>>, keys |-> ks]
PassTrace(s) == [s EXCEPT !.traces = @ + 1, !.each = Append(@, <<>>)]
PassEvent(s, e) == [s EXCEPT !.events = @ + 1, !.classes = Add(@, Identity(s.keys, e[1])),
                             !.bounds = Register(@, e[2]), !.each[s.traces] = Register(@, e[2])]
=============================================================================
