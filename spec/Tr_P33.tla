------------------------------- MODULE Tr_P33 -------------------------------
(* e.op: obtain (e.x, by class), manager, use.  e.shown: for each prefix     *)
(* looked at: what its extension shows; e.names: <<language, key, name>>.    *)
EXTENDS TraceKit, StdExt
TInit(case) == Nothing
Seq2Set(s) == {s[i] : i \in 1 .. Len(s)}
Plain(a) == a.x = a.own /\ a.nested = 0
Value(a) == IF a.t = "id" THEN SubSeq(a.v, 1, 1) ELSE a.v
Row(a) == <<a.k, a.t, Value(a), a.d>>
Want(a) == <<a.k, a.t, a.v, IF a.t = "timestamp" THEN <<1970, 1, 1, 0, 0, 0, 0, 0>> ELSE <<>>>>
Same(s, want) == Len(s) = Cardinality(want) /\ {Row(s[i]) : i \in 1 .. Len(s)} = {Want(a) : a \in want}
                 /\ \A i \in 1 .. Len(s) : Plain(s[i])
Shown(o) ==
  LET x == o.prefix
  IN  Clause("name", o.name = Ext[x].name) \cup Clause("uri", o.uri = Ext[x].uri) \cup Clause("same prefix", o.says = x)
      \cup UNION {Clause(lv, Same(o.at[lv], At(x, lv))) : lv \in Levels}
      \cup Clause("defined", Same(o.defined, Of(x)))
      \cup Clause("prototypes", Same(o.proto, Of(x)))
TStep(case, s, e) ==
  LET n == CASE e.op = "obtain" -> Obtain(s, e.x)
             [] e.op = "manager" -> Manager(s)
             [] e.op = "use" -> Use(s)
  IN  Res(n, Clause("looked at", n \subseteq {e.shown[i].prefix : i \in 1 .. Len(e.shown)})
             \cup UNION {Shown(e.shown[i]) : i \in 1 .. Len(e.shown)}
             \cup Clause("names", \A i \in 1 .. Len(e.names) :
                     LET q == e.names[i] IN (\E a \in Attrs : a.k = q[2] /\ a.x \in n) => q[3] = NameOf(q[1], q[2])))
=============================================================================
