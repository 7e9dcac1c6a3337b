------------------------------- MODULE Tr_P15 -------------------------------
(* e.all: what every attribute of the tree, and the element itself, reports. *)
EXTENDS TraceKit, ExtTree
TInit(case) == [t |-> Tree0, x |-> {}]
Reported(row) == {row.got[i] : i \in 1 .. Len(row.got)}
Right(s, e) ==
  Clause("reports", \A i \in 1 .. Len(e.all) : LET r == e.all[i] IN
            Reported(r) = IF r.p = <<>> /\ e.log THEN s.x ELSE Uses(s.t, r.p))
  \cup Clause("once", \A i \in 1 .. Len(e.all) : Len(e.all[i].got) = Cardinality(Reported(e.all[i])))
TStep(case, s, e) ==
  LET t == CASE e.op = "put" -> [s EXCEPT !.t = PutEff(s.t, e.p, e.x)]
             [] e.op = "del" -> [s EXCEPT !.t = DelEff(s.t, e.p)]
             [] e.op = "give" -> [s EXCEPT !.x = @ \cup {e.x}]
             [] e.op = "take" -> [s EXCEPT !.x = @ \ {e.x}]
             \* what an earlier report returned is changed by the caller
             [] e.op = "spoil" -> s
             [] OTHER -> s
  IN  Res(t, Right(t, e) \cup Clause("changed", {e.all[i].p : i \in 1 .. Len(e.all)} = DOMAIN t.t \cup {<<>>}))
=============================================================================
