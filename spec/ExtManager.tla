----------------------------- MODULE ExtManager -----------------------------
(* P23: the extension manager.  List: the registered extensions in index     *)
(* order, each [uri, name, prefix, obj], obj the number of the object.       *)
(* def: for each object the attributes of its four levels.                   *)
EXTENDS Integers, Sequences, FiniteSets, Clauses
Standard == << [name |-> "Concept", prefix |-> "concept", uri |-> "http://www.xes-standard.org/concept.xesext"],
               [name |-> "Cost", prefix |-> "cost", uri |-> "http://www.xes-standard.org/cost.xesext"],
               [name |-> "Identity", prefix |-> "identity", uri |-> "http://www.xes-standard.org/identity.xesext"],
               [name |-> "Lifecycle", prefix |-> "lifecycle", uri |-> "http://www.xes-standard.org/lifecycle.xesext"],
               [name |-> "Micro", prefix |-> "micro", uri |-> "http://www.xes-standard.org/micro.xesext"],
               [name |-> "Organizational", prefix |-> "org", uri |-> "http://www.xes-standard.org/org.xesext"],
               [name |-> "Semantic", prefix |-> "semantic", uri |-> "http://www.xes-standard.org/semantic.xesext"],
               [name |-> "Time", prefix |-> "time", uri |-> "http://www.xes-standard.org/time.xesext"] >>
At(l, uri) == {i \in 1 .. Len(l) : l[i].uri = uri}
Knows(l, uri) == At(l, uri) # {}
Register(l, x) == IF Knows(l, x.uri) THEN [l EXCEPT ![CHOOSE i \in At(l, x.uri) : TRUE] = x] ELSE Append(l, x)
By(l, f(_), v) == {l[i].obj : i \in {j \in 1 .. Len(l) : f(l[j]) = v}}
\* an answer (0: nothing) for what these objects match
Answers(got, S) == IF S = {} THEN got = 0 ELSE got \in S
\* what the manager shows: <<asked, object>> per lookup
Show(l, o) ==
  Clause("by uri", \A i \in 1 .. Len(o.uri) : Answers(o.uri[i][2], By(l, LAMBDA x : x.uri, o.uri[i][1])))
  \cup Clause("by name", \A i \in 1 .. Len(o.name) : Answers(o.name[i][2], By(l, LAMBDA x : x.name, o.name[i][1])))
  \cup Clause("by prefix", \A i \in 1 .. Len(o.prefix) : Answers(o.prefix[i][2], By(l, LAMBDA x : x.prefix, o.prefix[i][1])))
  \cup Clause("by index", \A i \in 1 .. Len(o.at) : o.at[i][2] = IF o.at[i][1] >= 0 /\ o.at[i][1] < Len(l) THEN l[o.at[i][1] + 1].obj ELSE 0)
  \* index of an extension (given by its uri)
  \cup Clause("index of", \A i \in 1 .. Len(o.index) : o.index[i][2] = IF Knows(l, o.index[i][1]) THEN (CHOOSE j \in At(l, o.index[i][1]) : TRUE) - 1 ELSE -1)
\* an extension's attributes: levels are sequences of four sets
Levels(d) == d[1] \cup d[2] \cup d[3] \cup d[4]
ShowDef(d, o) == Clause("levels", \A n \in 1 .. 4 : {o.levels[n][i] : i \in 1 .. Len(o.levels[n])} = d[n] /\ Len(o.levels[n]) = Cardinality(d[n]))
                 \cup Clause("defined attributes", {o.all[i] : i \in 1 .. Len(o.all)} = Levels(d) /\ Len(o.all) = Cardinality(Levels(d)))
=============================================================================
