------------------------------ MODULE Registry ------------------------------
(* P22: registries and singletons.  A registry is its members and current    *)
(* default (0: none); instances are numbers.  Singletons: name to object.    *)
EXTENDS Integers, Sequences, FiniteSets, Clauses
Vacant == [in |-> {}, cur |-> 0]
Register(r, i) == [in |-> r.in \cup {i}, cur |-> IF r.cur = 0 THEN i ELSE r.cur]
SetDefault(r, i) == [in |-> r.in \cup {i}, cur |-> i]
Sound(r) == IF r.in = {} THEN r.cur = 0 ELSE r.cur \in r.in
\* what a registry shows: o.avail, o.cur, o.has: the instances said to be in it
Show(r, o) == Clause("available", Len(o.avail) = Cardinality(r.in) /\ {o.avail[i] : i \in 1 .. Len(o.avail)} = r.in)
              \cup Clause("default", o.cur = r.cur) \cup Clause("contains", {o.has[i] : i \in 1 .. Len(o.has)} = r.in)
              \cup Clause("default is available", Sound([in |-> {o.avail[i] : i \in 1 .. Len(o.avail)}, cur |-> o.cur]))
\* obtaining a singleton: the same object as before, never another's
Obtain(s, name, obj) ==
  IF name \in DOMAIN s THEN [st |-> s, ok |-> s[name] = obj]
  ELSE [st |-> [x \in DOMAIN s \cup {name} |-> IF x = name THEN obj ELSE s[x]], ok |-> \A x \in DOMAIN s : s[x] # obj]
=============================================================================
