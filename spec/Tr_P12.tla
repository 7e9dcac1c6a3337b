------------------------------- MODULE Tr_P12 -------------------------------
(* e.d: the fields of the new event's timestamp, <<>> for none; e.order: the *)
(* numbers of the events in the trace afterwards; e.ret: the index returned. *)
EXTENDS TraceKit, Insertion
TInit(case) == <<>>
Numbers(tr) == [i \in 1 .. Len(tr) |-> tr[i].n]
At(e) == IF e.d = <<>> THEN None ELSE InstantOf(e.d)
TStep(case, tr, e) ==
  CASE e.op = "fill" -> Ok([i \in 1 .. Len(e.ds) |-> [n |-> i, t |-> IF e.ds[i] = <<>> THEN None ELSE InstantOf(e.ds[i])]])
    [] e.op = "append" -> LET t == AppendEff(tr, e.n, At(e)) IN Res(t, Clause("append", e.order = Numbers(t)))
    [] e.op = "insert" ->
         LET t == InsertEff(tr, e.n, At(e))
             others(s) == SelectSeq(s, LAMBDA x : x # e.n)
         IN  Res(t, Clause("order", others(e.order) = others(Numbers(tr)))
                    \cup Clause("place", e.order = Numbers(t))
                    \cup Clause("index", e.ret = Place(tr, At(e)) - 1)
                    \cup Clause("kept", ~e.changed))
=============================================================================
