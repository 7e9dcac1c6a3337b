---------------------------- MODULE EventClasses ----------------------------
(* P17: a set of event classes.  State: how often each identity was          *)
(* registered, and whether the indices have to be alphabetical (harmonized   *)
(* and nothing new since).  Identities are code point sequences.             *)
EXTENDS Classify
Fresh == [n |-> [x \in {} |-> 0], tidy |-> FALSE]
Add(s, id) == IF id \in DOMAIN s.n THEN [s EXCEPT !.n[id] = @ + 1]
              ELSE [n |-> [x \in DOMAIN s.n \cup {id} |-> IF x = id THEN 1 ELSE s.n[x]], tidy |-> FALSE]
RECURSIVE AddAll(_, _, _)
AddAll(s, ids, i) == IF i > Len(ids) THEN s ELSE AddAll(Add(s, ids[i]), ids, i + 1)
\* a size set explicitly stands in for the registrations up to then
SetSize(s, id, n) == [s EXCEPT !.n[id] = n]
Harmonize(s) == [s EXCEPT !.tidy = TRUE]
Rank(s, id) == Cardinality({x \in DOMAIN s.n : CmpSeq(x, id, 1) < 0})

\* what a set shows: o.classes, o.byix, o.byid, o.of
Show(s, o) ==
  LET cs == o.classes                      \* <<id, index, size>>
      R == 1 .. Len(cs)
      n == Cardinality(DOMAIN s.n)
      Entry(id) == cs[CHOOSE i \in R : cs[i][1] = id]
      one == Len(cs) = n /\ o.len = n /\ {cs[i][1] : i \in R} = DOMAIN s.n
  IN  IF ~one THEN {"one class per identity"}
      ELSE Clause("sizes", \A i \in R : cs[i][3] = s.n[cs[i][1]])
           \cup Clause("indices", {cs[i][2] : i \in R} = 0 .. n - 1)
           \cup Clause("alphabetical", s.tidy => \A i \in R : cs[i][2] = Rank(s, cs[i][1]))
           \* lookups: <<asked, found>> with found empty or the class found
           \cup Clause("by index", \A i \in 1 .. Len(o.byix) :
                          LET q == o.byix[i][1] IN o.byix[i][2] = SelectSeq(cs, LAMBDA x : x[2] = q))
           \cup Clause("by identity", \A i \in 1 .. Len(o.byid) :
                          LET q == o.byid[i][1] IN o.byid[i][2] = SelectSeq(cs, LAMBDA x : x[1] = q))
           \cup Clause("class of", \A i \in 1 .. Len(o.of) :
                          LET q == Identity(o.keys, o.of[i][1]) IN o.of[i][2] = SelectSeq(cs, LAMBDA x : x[1] = q))
=============================================================================
