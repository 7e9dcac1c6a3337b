------------------------------- MODULE Tr_P26 -------------------------------
(* st: the elements.  Each event shows every element (e.el), what the        *)
(* accessors answer on some of them (e.got: <<element, accessor -> answer,   *)
(* standard model>>) and a digest of the extensions' prototypes.             *)
EXTENDS TraceKit, Accessors
TInit(case) == [el |-> <<>>, p |-> ""]
Look(case, s, e) ==
  Clause("attributes", e.el = s.el) \cup Clause("prototypes", e.proto = s.p)
  \cup UNION {UNION {Clause("extracted " \o a, FALSE) : a \in Answers(s.el[e.got[i][1]], e.got[i][2], case.tx)} : i \in 1 .. Len(e.got)}
  \cup Clause("uses standard model", \A i \in 1 .. Len(e.got) : (e.got[i][3] = 1) = UsesStandardModel(s.el[e.got[i][1]], case.tx))
TStep(case, s, e) ==
  LET n == CASE e.op = "begin" -> [el |-> e.el, p |-> e.proto]
             [] e.op = "assign" -> [s EXCEPT !.el[e.i] = Assign(@, e.a, e.val, case.tx)]
             [] e.op = "remove" -> [s EXCEPT !.el[e.i] = Remove(@, e.a)]
             [] e.op = "set" -> [s EXCEPT !.el[e.i] = Set(@, e.k, e.at)]     \* stored, changed or nested directly
             [] e.op = "del" -> [s EXCEPT !.el[e.i] = Drop(@, e.k)]
  IN  Res(n, Look(case, n, e))
=============================================================================
