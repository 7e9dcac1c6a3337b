------------------------------- MODULE Bounds -------------------------------
(* P19: time bounds.  A bound is <<>> or <<first, last>>, two instants.       *)
EXTENDS Temporal, Clauses
Wide(b, i) == IF b = <<>> THEN <<i, i>>
              ELSE <<IF InstantLess(i, b[1]) THEN i ELSE b[1], IF InstantLess(b[2], i) THEN i ELSE b[2]>>
Merge(b, o) == IF o = <<>> THEN b ELSE Wide(Wide(b, o[1]), o[2])
Within(b, i) == IF b = <<>> THEN FALSE ELSE ~InstantLess(i, b[1]) /\ ~InstantLess(b[2], i)
\* a date as fields; <<>> is no date
Register(b, d) == IF d = <<>> THEN b ELSE Wide(b, InstantOf(d))
\* what a bound shows: o.start, o.end (fields or <<>>), o.within: <<date, answer>>
ShowBounds(b, o) ==
  Clause("start", IF b = <<>> THEN o.start = <<>> ELSE o.start # <<>> /\ InstantOf(o.start) = b[1])
  \cup Clause("end", IF b = <<>> THEN o.end = <<>> ELSE o.end # <<>> /\ InstantOf(o.end) = b[2])
  \cup Clause("within", \A i \in 1 .. Len(o.within) : o.within[i][2] = Within(b, InstantOf(o.within[i][1])))
=============================================================================
