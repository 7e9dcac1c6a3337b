------------------------------- MODULE Stamp -------------------------------
(* P14: a timestamp attribute is its last assigned value: the fields of a    *)
(* datetime, or a number of milliseconds <<day, second of day, millisecond>>.*)
EXTENDS Temporal
FromFields(d) == [kind |-> "value", d |-> d, at |-> InstantOf(d)]
FromMillis(m) == [kind |-> "millis", d |-> <<>>, at |-> <<m[1], m[2], m[3] * 1000>>]
SetEff(s, d) == FromFields(d)
MillisEff(s, m) == FromMillis(m)

\* the views
ValueAgrees(s, d) == InstantOf(d) = s.at /\ (s.kind = "value" => d = s.d)
\* a number of milliseconds, observed as an instant; floating point resolves
\* a microsecond near the epoch and some fifty far from it
Tolerance(i) == IF i[1] \in -60000 .. 60000 THEN 2 ELSE 64
Near(i, j, tol) ==
  LET d == (j[2] - i[2]) + 86400 * (j[1] - i[1])
  IN  i[1] - j[1] \in -1 .. 1 /\ d \in -1 .. 1 /\ LET u == d * 1000000 + j[3] - i[3] IN u \in -tol .. tol
WholeMillis(i) == i[3] % 1000 = 0     \* as floating point has them all
MillisAgree(s, i) == Near(s.at, i, Tolerance(s.at))
TextAgrees(s, t) == Denotes(t) /\ InstantOf(FieldsOf(t)) = <<s.at[1], s.at[2], (s.at[3] \div 1000) * 1000>>
=============================================================================
