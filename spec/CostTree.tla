------------------------------ MODULE CostTree ------------------------------
(* P27: cost values nested in an element's attributes.  An element is its    *)
(* attribute map m: key -> attribute [k, t, v, d, x, m, c].                  *)
EXTENDS Integers, Sequences, FiniteSets, Clauses
Kinds == {"amount", "driver", "type"}
CostKey(kind) == "cost:" \o kind
CostType(kind) == IF kind = "amount" THEN "continuous" ELSE "literal"
NoMap == [x \in {} |-> 0]
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Attr(k, t, v, x) == [k |-> k, t |-> t, v |-> v, d |-> <<>>, x |-> x, m |-> NoMap, c |-> <<>>]
Blank(k) == Attr(k, "literal", "s", "N")      \* the text attribute made on the way
\* the path walked, with what is missing made
RECURSIVE Walk(_, _)
Walk(m, p) == IF p = <<>> THEN m
              ELSE LET a == IF p[1] \in DOMAIN m THEN m[p[1]] ELSE Blank(p[1]) IN Set(m, p[1], [a EXCEPT !.m = Walk(@, Tail(p))])
RECURSIVE Store(_, _, _, _)
Store(m, p, kind, v) == IF p = <<>> THEN Set(m, CostKey(kind), Attr(CostKey(kind), CostType(kind), v, "cost"))
                        ELSE LET a == IF p[1] \in DOMAIN m THEN m[p[1]] ELSE Blank(p[1]) IN Set(m, p[1], [a EXCEPT !.m = Store(@, Tail(p), kind, v)])
RECURSIVE StoreAll(_, _, _, _)
StoreAll(m, kind, vs, i) == IF i > Len(vs) THEN m ELSE StoreAll(Store(m, vs[i][1], kind, vs[i][2]), kind, vs, i + 1)
\* replace or drop the attribute at a path directly
RECURSIVE PutAt(_, _, _)
PutAt(m, p, a) == IF Len(p) = 1 THEN Set(m, p[1], a) ELSE [m EXCEPT ![p[1]].m = PutAt(@, Tail(p), a)]
RECURSIVE DropAt(_, _)
DropAt(m, p) == IF Len(p) = 1 THEN Drop(m, p[1]) ELSE [m EXCEPT ![p[1]].m = DropAt(@, Tail(p))]
\* all values: <<path, value>>
RECURSIVE Nested(_, _)
Nested(m, kind) == UNION {LET a == m[k] IN (IF CostKey(kind) \in DOMAIN a.m THEN {<<<<k>>, a.m[CostKey(kind)].v>>} ELSE {})
                                           \cup {<<<<k>> \o q[1], q[2]>> : q \in Nested(a.m, kind)} : k \in DOMAIN m}
Flat(m, kind) == {<<q[1][1], q[2]>> : q \in {r \in Nested(m, kind) : Len(r[1]) = 1}}
RECURSIVE Paths(_)
Paths(m) == UNION {{<<k>>} \cup {<<k>> \o q : q \in Paths(m[k].m)} : k \in DOMAIN m}
=============================================================================
