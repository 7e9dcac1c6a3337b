------------------------------- MODULE Tr_P06 -------------------------------
EXTENDS TraceKit, MxmlDoc
TInit(case) == 0
\* observed dates as instants
RECURSIVE Canon(_)
Canon(a) == [a EXCEPT !.d = IF a.t = "timestamp" THEN InstantOf(@) ELSE <<>>, !.m = [k \in DOMAIN a.m |-> Canon(a.m[k])]]
CanonMap(m) == [k \in DOMAIN m |-> Canon(m[k])]
Obs(g) == [m |-> CanonMap(g.m), tr |-> [i \in 1 .. Len(g.tr) |->
             [m |-> CanonMap(g.tr[i].m), ev |-> [j \in 1 .. Len(g.tr[i].ev) |-> [m |-> CanonMap(g.tr[i].ev[j].m)]]]]]
TStep(case, s, e) ==
  IF e.err # "" THEN Res(s, {"fails"})
  ELSE IF e.n # 1 THEN Res(s, {"one_log"})
  ELSE Res(s, Clause("read_only", e.before = e.after) \cup TripBad(e.before, e.low, Obs(e.got)))
=============================================================================
