------------------------------- MODULE Tr_P13 -------------------------------
EXTENDS TraceKit, Compare
TInit(case) == 0
\* e.it: the items; mixed: items of several kinds, e.eq whether equal, unequal; e.odd the same with foreign objects
TStep(case, s, e) == Res(s, IF e.op = "mixed" THEN
    Clause("mixed", \A i, j \in 1 .. Len(e.it) : LET q == Alike(e.it[i], e.it[j]) IN e.eq[i][j] = <<q, ~q>> /\ (q => e.h[i] = e.h[j]))
    \cup Clause("foreign", \A i \in 1 .. Len(e.odd) : \A j \in 1 .. Len(e.odd[i]) : e.odd[i][j] = <<FALSE, FALSE, TRUE, TRUE>>)
  ELSE Laws(e) \cup Clause("order", Expected(e.kind, e.it, e)))
=============================================================================
