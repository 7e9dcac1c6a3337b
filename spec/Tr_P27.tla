------------------------------- MODULE Tr_P27 -------------------------------
(* st: the attribute map of the element.  Each event shows it (e.m), the     *)
(* nested values (e.nested: kind -> <<path, value>>) and the flat ones.      *)
(* A value to be ignored (e.bad) may or may not leave the path made.         *)
EXTENDS TraceKit, CostTree
TInit(case) == NoMap
ToSet(q) == {q[i] : i \in 1 .. Len(q)}
Look(m, e) ==
  Clause("attributes", e.m = m)
  \cup UNION {Clause("nested " \o k, ToSet(e.nested[k]) = Nested(m, k) /\ Len(e.nested[k]) = Cardinality(Nested(m, k))) : k \in Kinds}
  \cup UNION {Clause("flat " \o k, ToSet(e.flat[k]) = Flat(m, k) /\ Len(e.flat[k]) = Cardinality(Flat(m, k))) : k \in Kinds}
TStep(case, m, e) ==
  LET n == CASE e.op = "begin" -> e.m
             [] e.op = "assign" -> IF e.bad THEN (IF e.m = m THEN m ELSE Walk(m, e.vs[1][1])) ELSE StoreAll(m, e.kind, e.vs, 1)
             [] e.op = "put" -> PutAt(m, e.p, e.at)
             [] e.op = "drop" -> DropAt(m, e.p)
  IN  Res(n, Look(n, e))
=============================================================================
