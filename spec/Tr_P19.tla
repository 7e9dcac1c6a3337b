------------------------------- MODULE Tr_P19 -------------------------------
(* e.i: the bounds registered into; e.d: the date or the time of the event;  *)
(* e.shown: every bounds made so far.                                        *)
EXTENDS TraceKit, Bounds
TInit(case) == <<>>
TStep(case, s, e) ==
  LET n == CASE e.op = "new" -> Append(s, <<>>)
             [] e.op \in {"date", "event"} -> [s EXCEPT ![e.i] = Register(@, e.d)]
             [] e.op = "bounds" -> [s EXCEPT ![e.i] = Merge(@, s[e.j])]
  IN  Res(n, UNION {ShowBounds(n[i], e.shown[i]) : i \in 1 .. Len(n)} \cup Clause("event changed", ~e.changed))
=============================================================================
