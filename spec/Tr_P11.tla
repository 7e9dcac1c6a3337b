------------------------------- MODULE Tr_P11 -------------------------------
(* Observed after each operation, per element: m and r, digests of its map   *)
(* and of everything else; id (events); h, its hash (events, traces).  eq:   *)
(* the pairs of events found equal, ne: those found different; teq: the      *)
(* pairs of traces found equal.                                              *)
EXTENDS TraceKit, Creation, Orders
TInit(case) == [w |-> New0(2), seen |-> <<>>]
Pairs(sq) == {<<sq[i][1], sq[i][2]>> : i \in 1 .. Len(sq)}
Events(e) == {i \in 1 .. Len(e.all) : e.all[i].id # "none"}
Alike(e) ==
  LET same == {p \in Events(e) \X Events(e) : e.all[p[1]].id = e.all[p[2]].id}
  IN  Clause("equality", Pairs(e.eq) = same /\ Pairs(e.ne) = (Events(e) \X Events(e)) \ same)
      \cup Clause("hash", /\ \A p \in same : e.all[p[1]].h = e.all[p[2]].h
                          /\ \A p \in Pairs(e.teq) : e.all[p[1]].h = e.all[p[2]].h)
      \cup Clause("stable", \A i \in 1 .. Len(e.all) : e.all[i].h = e.all[i].h2)
TStep(case, old, e) ==
  LET s == IF e.op = "new" /\ e.first THEN TInit(case) ELSE old     \* a new world
  IN
  CASE e.op = "new" ->
         LET w == CreateEff(s.w, e.g, TRUE, e.id)
             n == e.all[Len(e.all)]
         IN  Res([w |-> w, seen |-> e.all],
                 Clause("carries", n.m = e.m /\ n.r = e.r)
                 \cup Clause("undisturbed", \A i \in 1 .. Len(s.seen) : e.all[i] = s.seen[i])
                 \cup Clause("identity", IF e.id = "none" THEN n.id = "none"
                                         ELSE IF e.id = "fresh" THEN \A i \in 1 .. Len(s.seen) : e.all[i].id # n.id
                                         ELSE n.id = e.id)
                 \cup Alike(e))
    [] e.op = "map" ->
         Res([w |-> MapEff(s.w, e.i, Len(s.w.val) + 1000), seen |-> e.all],
             Clause("isolated", \A j \in 1 .. Len(s.seen) :
                       j # e.i => /\ e.all[j].r = s.seen[j].r /\ e.all[j].id = s.seen[j].id
                                  /\ (MaySee(s.w, e.i, j) \/ e.all[j] = s.seen[j]))
             \cup Alike(e))
    [] e.op = "rest" ->
         Res([s EXCEPT !.seen = e.all],
             Clause("isolated", \A j \in 1 .. Len(s.seen) : j # e.i => e.all[j] = s.seen[j])
             \cup Alike(e))
    [] e.op = "setid" ->
         Res([s EXCEPT !.seen = e.all], Clause("identity", e.all[e.i].id = e.id)
             \cup Clause("isolated", \A j \in 1 .. Len(s.seen) : j \notin {e.on[k] : k \in 1 .. Len(e.on)} => e.all[j] = s.seen[j]) \cup Alike(e))
    \* identities made, their texts read back; x[1]: the identity, the others: what the texts denote
    [] e.op = "text" -> Res(s, Clause("text", \A i \in 1 .. Len(e.made) : \A k \in 2 .. Len(e.made[i]) : e.made[i][k] = e.made[i][1])
                               \cup Clause("distinct", Cardinality({e.made[i][1] : i \in 1 .. Len(e.made)}) = Len(e.made)))
    \* comparisons of identities
    [] e.op = "order" -> Res(s, Laws(e) \cup Clause("zero", \A i, j \in 1 .. Len(e.key) : e.sign[i][j] = 0 <=> e.key[i] = e.key[j]))
=============================================================================
