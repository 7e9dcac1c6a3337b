----------------------------- MODULE Insertion -----------------------------
(* P12: ordered insertion.  A trace is a sequence of [n, t]: the number of   *)
(* an event and its instant, <<>> for none.                                  *)
EXTENDS Temporal, FiniteSets

None == <<>>
AtMost(a, b) == ~InstantLess(b, a)
\* the place of the new event: scan from the end
RECURSIVE Scan(_, _, _)
Scan(tr, t, i) ==
  IF i = 0 THEN 1
  ELSE IF tr[i].t = None THEN Len(tr) + 1
  ELSE IF AtMost(tr[i].t, t) THEN i + 1
  ELSE Scan(tr, t, i - 1)
Place(tr, t) == IF t = None THEN Len(tr) + 1 ELSE Scan(tr, t, Len(tr))
PutAt(tr, x, i) == SubSeq(tr, 1, i - 1) \o <<x>> \o SubSeq(tr, i, Len(tr))
InsertEff(tr, n, t) == PutAt(tr, [n |-> n, t |-> t], Place(tr, t))
AppendEff(tr, n, t) == Append(tr, [n |-> n, t |-> t])

Timed(tr) == \A i \in 1 .. Len(tr) : tr[i].t # None
Sorted(tr) == \A i, j \in 1 .. Len(tr) : i < j => AtMost(tr[i].t, tr[j].t)
StableOrder(tr) == \A i, j \in 1 .. Len(tr) : i < j /\ tr[i].t = tr[j].t => tr[i].n < tr[j].n
=============================================================================
