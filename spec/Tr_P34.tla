------------------------------- MODULE Tr_P34 -------------------------------
(* case.seqs, maps, sets: the slots; case.who: events' identities by member;  *)
(* case.tr: member -> slot of the traces.  e.seq, e.rev, e.len, e.map,       *)
(* e.set, e.void: what the elements show after the step; e.r: the answer.    *)
EXTENDS TraceKit, Containers
TInit(case) == Void({case.seqs[i] : i \in 1 .. Len(case.seqs)}, {case.maps[i] : i \in 1 .. Len(case.maps)}, {case.sets[i] : i \in 1 .. Len(case.sets)},
                    [x \in 1 .. Len(case.who) |-> case.who[x]],
                    [x \in {case.tr[i][1] : i \in 1 .. Len(case.tr)} |-> case.tr[CHOOSE i \in 1 .. Len(case.tr) : case.tr[i][1] = x][2]])
Shown(s, e) ==
  Clause("contents", \A t \in DOMAIN s.seq : e.seq[t] = s.seq[t])
  \cup Clause("backwards", \A t \in DOMAIN s.seq : e.rev[t] = Reversed(s.seq[t]))
  \cup Clause("length", \A t \in DOMAIN s.seq : e.len[t] = Len(s.seq[t]))
  \cup Clause("map", \A t \in DOMAIN s.map : DOMAIN e.map[t] = DOMAIN s.map[t] /\ \A k \in DOMAIN s.map[t] : e.map[t][k] = s.map[t][k])
  \cup Clause("empty", \A t \in DOMAIN s.map : e.void[t] = (IF DOMAIN s.map[t] = {} THEN 1 ELSE 0))
  \cup Clause("set", \A t \in DOMAIN s.set : {e.set[t][i] : i \in 1 .. Len(e.set[t])} = s.set[t] /\ Len(e.set[t]) = Cardinality(s.set[t]))
TStep(case, s, e) ==
  IF e.op = "begin" THEN Res(s, Shown(s, e))
  ELSE LET n == Eff(s, e) IN Res(n.st, Clause("answer", e.r = n.r) \cup Shown(n.st, e))
=============================================================================
