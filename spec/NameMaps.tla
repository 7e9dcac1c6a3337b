------------------------------ MODULE NameMaps ------------------------------
(* P28: attribute name mappings.  map: the mappings made, by number, each    *)
(* [name, al], al key -> alias; glob: name -> number for the global ones.    *)
EXTENDS Integers, Sequences, FiniteSets, Clauses
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NoAlias == [x \in {} |-> ""]
Start == [map |-> <<[name |-> "EN", al |-> NoAlias]>>, glob |-> [x \in {"EN"} |-> 1]]
Made(s, n) == IF n \in DOMAIN s.glob THEN s ELSE [map |-> Append(s.map, [name |-> n, al |-> NoAlias]), glob |-> Set(s.glob, n, Len(s.map) + 1)]
Apart(s, n) == [s EXCEPT !.map = Append(@, [name |-> n, al |-> NoAlias])]    \* a mapping of its own
RegAt(s, i, k, a) == [s EXCEPT !.map[i].al = Set(@, k, a)]
Reg(s, n, k, a) == LET t == Made(s, n) IN RegAt(t, t.glob[n], k, a)
None == "N"
Lookup(s, i, k) == IF k \in DOMAIN s.map[i].al THEN s.map[i].al[k] ELSE None
Standard(s) == s.glob["EN"]
Safely(s, i, k) == IF Lookup(s, i, k) # None THEN Lookup(s, i, k) ELSE IF Lookup(s, Standard(s), k) # None THEN Lookup(s, Standard(s), k) ELSE "s" \o k
SafelyByName(s, n, k) == Safely(s, IF n \in DOMAIN s.glob THEN s.glob[n] ELSE Standard(s), k)
\* what is shown (aliases tagged with s): o.names, o.objs: <<name, number>>; o.map: <<number, key, alias>>; o.safe: <<number, key, alias>>;
\* o.byname: <<name, key, alias>>; o.std: <<key, alias>>; o.called: <<number, name>>
Show(s, o) ==
  Clause("mapping names", {o.names[i] : i \in 1 .. Len(o.names)} = DOMAIN s.glob /\ Len(o.names) = Cardinality(DOMAIN s.glob))
  \cup Clause("mappings", {o.objs[i] : i \in 1 .. Len(o.objs)} = {<<n, s.glob[n]>> : n \in DOMAIN s.glob} /\ Len(o.objs) = Cardinality(DOMAIN s.glob))
  \cup Clause("a mapping's name", \A i \in 1 .. Len(o.called) : o.called[i][1] \in DOMAIN s.map /\ o.called[i][2] = s.map[o.called[i][1]].name)
  \cup Clause("alias", \A i \in 1 .. Len(o.map) : o.map[i][1] \in DOMAIN s.map /\ o.map[i][3] = Lookup(s, o.map[i][1], o.map[i][2]))
  \cup Clause("standard alias", \A i \in 1 .. Len(o.std) : o.std[i][2] = Lookup(s, Standard(s), o.std[i][1]))
  \cup Clause("safe by mapping", \A i \in 1 .. Len(o.safe) : o.safe[i][1] \in DOMAIN s.map /\ o.safe[i][3] = Safely(s, o.safe[i][1], o.safe[i][2]))
  \cup Clause("safe by name", \A i \in 1 .. Len(o.byname) : o.byname[i][3] = SafelyByName(s, o.byname[i][1], o.byname[i][2]))
=============================================================================
