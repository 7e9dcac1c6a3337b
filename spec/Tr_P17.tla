------------------------------- MODULE Tr_P17 -------------------------------
(* st: the sets made so far.  e.i: the set; e.what: what was registered, in  *)
(* order: <<"id", identity>> or <<"ev", event>>; e.shown: every set.         *)
EXTENDS TraceKit, EventClasses
TInit(case) == <<>>
IdsOf(e, ks) == [j \in 1 .. Len(e.what) |-> IF e.what[j][1] = "id" THEN e.what[j][2] ELSE Identity(ks, e.what[j][2])]
Shown(s, e) == UNION {Show(s[i], e.shown[i]) : i \in 1 .. Len(s)} \cup Clause("elements changed", ~e.changed)
TStep(case, s, e) ==
  LET n == CASE e.op = "new" -> Append(s, Fresh)
             [] e.op = "derive" -> Append(s, Harmonize(AddAll(Fresh, IdsOf(e, e.keys), 1)))
             [] e.op = "reg" -> [s EXCEPT ![e.i] = AddAll(@, IdsOf(e, e.keys), 1)]
             [] e.op = "size" -> [s EXCEPT ![e.i] = SetSize(@, e.id, e.n)]
             [] e.op = "harm" -> [s EXCEPT ![e.i] = Harmonize(@)]
             [] e.op = "look" -> s
  IN  Res(n, Shown(n, e))
=============================================================================
