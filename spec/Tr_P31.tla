------------------------------- MODULE Tr_P31 -------------------------------
(* Each event shows every event's attributes (e.el; a copy's through its     *)
(* wrapper), those each wrapper shows (e.wel), the getters of each wrapper   *)
(* (e.got), whether it has attributes (e.has) and the extensions (e.ex).     *)
EXTENDS TraceKit, Wrappers
TInit(case) == [el |-> <<>>, w |-> <<>>]
RECURSIVE ExtsOf(_)
ExtsOf(m) == UNION {({m[k].x} \ {"N"}) \cup ExtsOf(m[k].m) : k \in DOMAIN m}
Look(case, s, e) ==
  Clause("events", e.el = s.el) \cup Clause("attributes", e.wel = [n \in 1 .. Len(s.w) |-> s.el[s.w[n]]])
  \cup UNION {UNION {Clause("get " \o a, FALSE) : a \in Answers(s.el[s.w[n]], e.got[n], case.tx)} : n \in 1 .. Len(s.w)}
  \cup Clause("has attributes", e.has = [n \in 1 .. Len(s.w) |-> DOMAIN s.el[s.w[n]] # {}])
  \cup Clause("extensions", \A n \in 1 .. Len(s.w) : {e.ex[n][i] : i \in 1 .. Len(e.ex[n])} = ExtsOf(s.el[s.w[n]]))
TStep(case, s, e) ==
  LET n == CASE e.op = "begin" -> [el |-> e.el, w |-> <<>>]
             [] e.op = "wrap" -> Wrap(s, e.i)
             [] e.op = "set" -> SetBy(s, e.n, e.a, e.val, case.tx)
             [] e.op = "assign" -> [s EXCEPT !.el[e.i] = Assign(@, e.a, e.val, case.tx)]
             [] e.op = "put" -> [s EXCEPT !.el[e.i] = Set(@, e.k, e.at)]
             [] e.op = "del" -> [s EXCEPT !.el[e.i] = Drop(@, e.k)]
             [] e.op = "replace" -> [s EXCEPT !.el[e.i] = e.m]
             [] e.op = "clone" -> Clone(s, e.n)
  IN  Res(n, Look(case, n, e))
=============================================================================
