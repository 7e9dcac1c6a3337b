------------------------------- MODULE Tr_P16 -------------------------------
(* e.evs: the events, e.name, e.keys: what the classifier says of itself,    *)
(* e.ids: the identities, e.same: the relation; e.want: name and keys it was *)
(* made with, or e.parts: the parts of a composite, each with its relation.  *)
EXTENDS TraceKit, Classify
TInit(case) == 0
N(e) == 1 .. Len(e.evs)
Ids(e, ks) == \A i \in N(e) : e.ids[i] = Identity(ks, e.evs[i])
Rel(e, ks, same) == \A i, j \in N(e) : (Clean(ks, e.evs[i]) /\ Clean(ks, e.evs[j])) \/ i = j => same[i][j] = Same(ks, e.evs[i], e.evs[j])
Agree(e) == \A i, j \in N(e) : (Clean(e.keys, e.evs[i]) /\ Clean(e.keys, e.evs[j])) => (e.same[i][j] <=> e.ids[i] = e.ids[j])
Equiv(e) == /\ \A i, j \in N(e) : e.same[i][j] = e.same[j][i]
            /\ \A i, j, k \in N(e) : e.same[i][j] /\ e.same[j][k] => e.same[i][k]
Common(e, ks) == Clause("identity", Ids(e, ks)) \cup Clause("same class", Rel(e, ks, e.same)) \cup Clause("agreement", Agree(e)) \cup Clause("equivalence", Equiv(e))
                 \cup Clause("events changed", ~e.changed)
TStep(case, s, e) ==
  CASE e.op = "plain" -> Res(s, Clause("name", e.name = e.want.name) \cup Clause("keys", e.keys = e.want.keys) \cup Common(e, e.want.keys))
    [] e.op = "and" -> LET ks == AndKeys(e.parts)
                       IN  Res(s, Clause("name", e.name = AndName(e.parts)) \cup Clause("keys", IsSortedUnion(e.keys, e.parts))
                                  \cup Common(e, ks)
                                  \cup Clause("parts", \A i, j \in N(e) : (Clean(ks, e.evs[i]) /\ Clean(ks, e.evs[j]))
                                                          => (e.same[i][j] <=> \A p \in 1 .. Len(e.parts) : e.parts[p].same[i][j])))
=============================================================================
