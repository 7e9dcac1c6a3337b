------------------------------- MODULE MC_P27 -------------------------------
(* One element; two keys to depth two; amounts and drivers assigned along    *)
(* every path, attributes removed.                                           *)
EXTENDS CostTree, McKit
CONSTANTS MaxOps
VARIABLES m, hist
vars == <<m, hist>>
view == <<m, Len(hist)>>
Ps == {<<"a">>, <<"b">>, <<"a", "a">>, <<"a", "b">>, <<"b", "a">>}
Ks == {"amount", "driver"}
Vs(kind) == IF kind = "amount" THEN {"f1.0", "f2.5"} ELSE {"sx"}
Init == m = NoMap /\ hist = <<>>
Do(h) == Len(hist) < MaxOps /\ hist' = Append(hist, h) /\ Emit(hist')
Give == \E p \in Ps, k \in Ks : \E v \in Vs(k) : m' = Store(m, p, k, v) /\ Do(<<"assign", k, p, v>>)
Take == \E p \in Paths(m) : Len(p) <= 2 /\ m' = DropAt(m, p) /\ Do(<<"drop", p>>)
Next == Give \/ Take
LastOp == hist'[Len(hist')]
\* what was assigned is what is extracted; all else as before
Exact == [][LastOp[1] = "assign" => \A k \in Ks : Nested(m', k) = IF k = LastOp[2] THEN {q \in Nested(m, k) : q[1] # LastOp[3]} \cup {<<LastOp[3], LastOp[4]>>} ELSE Nested(m, k)]_vars
Keeps == [][LastOp[1] = "assign" => Paths(m) \subseteq Paths(m')]_vars
OnePerPath == \A k \in Ks : Cardinality({q[1] : q \in Nested(m, k)}) = Cardinality(Nested(m, k))
FlatFirst == \A k \in Ks : Flat(m, k) = UNION {LET a == m[x] IN IF CostKey(k) \in DOMAIN a.m THEN {<<x, a.m[CostKey(k)].v>>} ELSE {} : x \in DOMAIN m}
\* the order in which several values are assigned does not matter
Commutes == \A p, q \in Ps : p # q => Store(Store(m, p, "amount", "f1.0"), q, "amount", "f2.5") = Store(Store(m, q, "amount", "f2.5"), p, "amount", "f1.0")
=============================================================================
