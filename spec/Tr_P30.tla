------------------------------- MODULE Tr_P30 -------------------------------
(* e.all: every attribute there is (the first one and its prototypes) after  *)
(* the step; e.class, e.name: the types reported for each; e.i: the one      *)
(* changed, or derived from.                                                 *)
EXTENDS TraceKit, Proto
TInit(case) == [seen |-> <<>>, t |-> "none"]
Ids(s) == {s[i].v : i \in {j \in 1 .. Len(s) : s[j].t = "id"}}
TypesRight(s, e) == Clause("type", \A i \in 1 .. Len(e.all) :
                       /\ e.all[i].t = s.t /\ e.class[i] = ClassOf(s.t) /\ e.name[i] = NameOf(s.t))
TStep(case, s, e) ==
  LET t == IF e.op = "new" THEN [s EXCEPT !.t = e.t, !.seen = e.all] ELSE [s EXCEPT !.seen = e.all]
      n == Len(e.all)
  IN  Res(t, TypesRight(t, e)
        \cup IF e.op \in {"nest", "child", "set"}
             THEN Clause("apart", \A j \in 1 .. n : j # e.i => e.all[j] = s.seen[j])
             ELSE IF e.op # "derive" THEN {}
             ELSE Clause("prototype", SameButValue(s.seen[e.i], e.all[n]))
                  \cup Clause("default", ProtoValue(s.seen[e.i], e.all[n], Ids(s.seen)))
                  \cup Clause("untouched", SubSeq(e.all, 1, n - 1) = s.seen))
=============================================================================
