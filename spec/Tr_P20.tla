------------------------------- MODULE Tr_P20 -------------------------------
(* e.i: the registry, e.a: the attribute; e.shown: every registry.  In a     *)
(* summary e.log, e.traces, e.events: the attributes of each element.        *)
EXTENDS TraceKit, AttrInfo
TInit(case) == <<>>
Summary(e) ==
  LET all == e.log \o Concat(e.traces, 1) \o Concat(e.events, 1)
      meta == Nested(all, 1)
      L == RegAll(Nothing, e.log, 1)
      T == RegAll(Nothing, Concat(e.traces, 1), 1)
      E == RegAll(Nothing, Concat(e.events, 1), 1)
      M == RegAll(Nothing, meta, 1)
      In(name, bad) == {name \o ": " \o x : x \in bad}
  IN  In("log", Show(L, e.shown.log, Strict(L))) \cup In("traces", Show(T, e.shown.trace, Strict(T)))
      \cup In("events", Show(E, e.shown.event, Strict(E))) \cup In("nested", Show(M, e.shown.meta, Loose(meta)))
TStep(case, s, e) ==
  IF e.op = "summary" THEN Res(s, Summary(e) \cup Clause("log changed", ~e.changed))
  ELSE LET n == IF e.op = "new" THEN Append(s, Nothing) ELSE [s EXCEPT ![e.i] = Reg(@, e.a)]
       IN  Res(n, UNION {Show(n[i], e.shown[i], Strict(n[i])) : i \in 1 .. Len(e.shown)} \cup Clause("attribute changed", ~e.changed))
=============================================================================
