------------------------------- MODULE Tr_P23 -------------------------------
(* begin: e.std: name, prefix, uri of what it knows, in index order.         *)
(* e.x: the extension registered; e.shown: all lookups; e.defs: the levels   *)
(* of every extension made in the case.                                      *)
EXTENDS TraceKit, ExtManager
TInit(case) == [l |-> <<>>, d |-> <<>>]
Look(s, e) == Show(s.l, e.shown) \cup UNION {ShowDef(s.d[i], e.defs[i]) : i \in 1 .. Len(s.d)}
TStep(case, s, e) ==
  LET n == CASE e.op = "begin" -> [s EXCEPT !.l = [i \in 1 .. Len(e.std) |-> [name |-> e.std[i][1], prefix |-> e.std[i][2], uri |-> e.std[i][3], obj |-> i]]]
             [] e.op = "reg" -> [s EXCEPT !.l = Register(@, e.x)]
             [] e.op = "make" -> [s EXCEPT !.d = Append(@, <<{}, {}, {}, {}>>)]
             [] e.op = "put" -> [s EXCEPT !.d[e.i][e.n] = @ \cup {e.a}]
             [] e.op = "take" -> [s EXCEPT !.d[e.i][e.n] = @ \ {e.a}]
             [] e.op = "look" -> s
  IN  Res(n, Look(n, e) \cup IF e.op = "begin" THEN Clause("standard extensions", {e.std[i] : i \in 1 .. Len(e.std)} = {<<Standard[i].name, Standard[i].prefix, Standard[i].uri>> : i \in 1 .. 8} /\ Len(e.std) = 8) ELSE {})
=============================================================================
