------------------------------ MODULE Classify ------------------------------
(* P16: classifiers.  Texts are code point sequences; an event is a sequence *)
(* of <<key, text of the value>> pairs.                                      *)
EXTENDS Orders, FiniteSets
Amp == 38
HasKey(ev, k) == \E i \in 1 .. Len(ev) : ev[i][1] = k
ValueOf(ev, k) == IF HasKey(ev, k) THEN ev[CHOOSE i \in 1 .. Len(ev) : ev[i][1] = k][2] ELSE <<>>
\* one slot per key, joined by &&
RECURSIVE Join(_, _, _)
Join(ks, ev, i) == IF i > Len(ks) THEN <<>>
                   ELSE (IF i > 1 THEN <<Amp, Amp>> ELSE <<>>) \o ValueOf(ev, ks[i]) \o Join(ks, ev, i + 1)
Identity(ks, ev) == Join(ks, ev, 1)
Same(ks, a, b) == \A i \in 1 .. Len(ks) : ValueOf(a, ks[i]) = ValueOf(b, ks[i])
Clean(ks, ev) == \A i \in 1 .. Len(ks) : LET v == ValueOf(ev, ks[i]) IN \A j \in 1 .. Len(v) : v[j] # Amp

\* the composite of parts [name, keys]
RECURSIVE Concat(_, _)
Concat(parts, i) == IF i > Len(parts) THEN <<>> ELSE parts[i].keys \o Concat(parts, i + 1)
RECURSIVE Names(_, _)
Names(parts, i) == IF i > Len(parts) THEN <<>>
                   ELSE (IF i > 1 THEN <<32, 65, 78, 68, 32>> ELSE <<>>) \o parts[i].name \o Names(parts, i + 1)
AndName(parts) == <<40>> \o Names(parts, 1) \o <<41>>
ToSetOf(s) == {s[i] : i \in 1 .. Len(s)}
IsSortedUnion(ks, parts) == /\ ToSetOf(ks) = ToSetOf(Concat(parts, 1))
                            /\ \A i, j \in 1 .. Len(ks) : i < j => CmpSeq(ks[i], ks[j], 1) < 0
RECURSIVE SortKeys(_)
SortKeys(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S : CmpSeq(x, y, 1) <= 0 IN <<m>> \o SortKeys(S \ {m})
AndKeys(parts) == SortKeys(ToSetOf(Concat(parts, 1)))
=============================================================================
