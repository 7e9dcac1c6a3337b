------------------------------- MODULE Tr_P10 -------------------------------
(* Each event lists what every root showed after it: d, a digest of its      *)
(* whole structure; ids, the identities of its events; info, the summaries   *)
(* cached (an index, or "none").  Whatever the heap machine says has not     *)
(* changed must not have been seen to change.                                *)
EXTENDS TraceKit, Cloning
TInit(case) == [h |-> Heap0, seen |-> <<>>]
Ids(o) == {o.ids[i] : i \in 1 .. Len(o.ids)}
Still(s, h, e) == \A j \in 1 .. Len(s.seen) : Shows(h, j) = Shows(s.h, j) => e.all[j] = s.seen[j]
TStep(case, s, e) ==
  CASE e.op = "make" -> Ok([h |-> MakeEff(Heap0, 1), seen |-> e.all])     \* a new world
    [] e.op = "clone" ->
         LET h == CloneEff(s.h, e.i)
             n == e.all[Len(e.all)]
         IN  Res([h |-> h, seen |-> e.all],
                 Clause("equal", n.d = s.seen[e.i].d)
                 \cup Clause("source", Still(s, h, e))
                 \cup Clause("identity", /\ Cardinality(Ids(n)) = Len(n.ids)
                                         /\ \A j \in 1 .. Len(s.seen) : Ids(n) \cap Ids(s.seen[j]) = {})
                 \cup Clause("cache", \A k \in 1 .. Len(n.info) : n.info[k] = "none"))
    [] e.op = "mut" ->
         LET h == MutEff(s.h, e.i, 1, Len(s.h.val) + 1000 + e.n)
         IN  Res([h |-> h, seen |-> e.all], Clause("independent", Still(s, h, e)))
=============================================================================
