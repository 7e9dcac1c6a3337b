------------------------------- MODULE MC_P13 -------------------------------
(* The specified orders over all triples of small values: three items are    *)
(* chosen one after the other; the laws hold among them.                     *)
EXTENDS Compare, McKit
CONSTANTS Size
VARIABLES kind, it
Texts == {<<>>, <<1>>, <<2>>, <<1, 1>>, <<1, 2>>}
Small == {<<>>, <<1>>, <<1, 1>>}
Nums == {[neg |-> TRUE, mag |-> <<1, 0>>], [neg |-> TRUE, mag |-> <<2>>], [neg |-> FALSE, mag |-> <<0>>], [neg |-> FALSE, mag |-> <<2>>], [neg |-> FALSE, mag |-> <<1, 0>>]}
Dates == {<<2017, 1, 1, 0, 0, 0, 0, 0>>, <<2017, 1, 1, 1, 0, 0, 0, 60>>, <<2016, 12, 31, 23, 59, 59, 999999, 0>>, <<2017, 1, 1, 1, 0, 0, 0, 0>>}
Vals(k) == CASE k = "literal" -> Texts [] k = "discrete" -> Nums [] k = "boolean" -> BOOLEAN [] k = "timestamp" -> Dates
             [] k = "list" -> {0, 1} [] k = "class" -> {0} [] k = "classifier" -> {<<>>, <<<<1>>>>, <<<<2>>>>, <<<<1>>, <<2>>>>, <<<<1, 1>>>>, <<<<2>>, <<1>>>>}
Kinds == {"literal", "discrete", "boolean", "timestamp", "list", "class", "classifier"}
Init == kind \in Kinds /\ it = <<>>
Add == /\ Len(it) < Size
       /\ \E k \in IF kind = "class" THEN Texts ELSE Small, v \in Vals(kind) : it' = Append(it, [k |-> k, v |-> v])
       /\ UNCHANGED kind
       /\ IF Len(it') = 2 THEN Emit(<<kind, it'>>) ELSE TRUE
Next == Add
C(i, j) == Cmp(kind, it[i], it[j])
N == 1 .. Len(it)
Same(a, b) == CASE kind \in {"list", "class"} -> a.k = b.k
                [] kind = "timestamp" -> a.k = b.k /\ InstantOf(a.v) = InstantOf(b.v)
                [] OTHER -> a = b
TotalOrder == /\ \A i, j \in N : C(i, j) = -C(j, i) /\ (C(i, j) = 0 <=> Same(it[i], it[j]))
              /\ \A i, j, k \in N : C(i, j) <= 0 /\ C(j, k) <= 0 => C(i, k) <= 0
=============================================================================
