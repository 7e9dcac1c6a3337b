------------------------------- MODULE Cache -------------------------------
(* P25: the extension cache.  files: name -> [c, stale], c the number of the *)
(* content; regs: the registered extensions in index order, each             *)
(* [uri, obj, name].  A content is [good, uri, name]: a readable definition, *)
(* or not.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, Clauses
Put(f, n, c, stale) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN [c |-> c, stale |-> stale] ELSE f[x]]
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
\* the file a URI is cached in: its last part, with the suffix
RECURSIVE LastPart(_)
LastPart(segs) == IF segs[Len(segs)] = "" /\ Len(segs) > 1 THEN LastPart(SubSeq(segs, 1, Len(segs) - 1)) ELSE segs[Len(segs)]
FileOf(segs, suffixed) == IF suffixed THEN LastPart(segs) ELSE LastPart(segs) \o ".xesext"
Download(f, n, c, ok) == IF ok THEN Put(f, n, c, FALSE) ELSE f
\* loading: defs are the names of the definition files among the files
Old(f, defs) == {n \in DOMAIN f \cap defs : f[n].stale}
Known(regs) == {regs[i].uri : i \in 1 .. Len(regs)}
Offered(f, defs, cs) == {cs[f[n].c] : n \in {m \in (DOMAIN f \cap defs) \ Old(f, defs) : cs[f[m].c].good}}
News(regs, f, defs, cs) == {o.uri : o \in Offered(f, defs, cs)} \ Known(regs)
\* the registrations after loading: those before, then one per new URI
Loaded(regs, f, defs, cs, after) ==
  LET N == News(regs, f, defs, cs)
      k == Len(regs)
  IN  Clause("nothing replaced", Len(after) >= k /\ SubSeq(after, 1, k) = regs)
      \cup Clause("new definitions registered", {after[i].uri : i \in (k + 1) .. Len(after)} = N /\ Len(after) - k = Cardinality(N))
      \cup Clause("registered as defined", \A i \in (k + 1) .. Len(after) : \E o \in Offered(f, defs, cs) : o.uri = after[i].uri /\ o.name = after[i].name)
Register(regs, x) == IF x.uri \in Known(regs) THEN [regs EXCEPT ![CHOOSE i \in 1 .. Len(regs) : regs[i].uri = x.uri] = x] ELSE Append(regs, x)
=============================================================================
