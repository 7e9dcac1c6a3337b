------------------------------ MODULE AttrInfo ------------------------------
(* P20: attribute registries.  State: for each key the type and extension of *)
(* the first attribute seen, and how often the key was registered.           *)
(* An attribute is <<key, type, extension, nested attributes>>.              *)
EXTENDS Integers, Sequences, FiniteSets, Clauses
Nothing == [first |-> [x \in {} |-> <<>>], n |-> [x \in {} |-> 0]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Reg(s, a) == IF a[1] \in DOMAIN s.n THEN [s EXCEPT !.n[a[1]] = @ + 1]
             ELSE [first |-> Put(s.first, a[1], <<a[2], a[3]>>), n |-> Put(s.n, a[1], 1)]
RECURSIVE RegAll(_, _, _)
RegAll(s, as, i) == IF i > Len(as) THEN s ELSE RegAll(Reg(s, as[i]), as, i + 1)
RECURSIVE Total(_, _)
Total(s, K) == IF K = {} THEN 0 ELSE LET k == CHOOSE x \in K : TRUE IN s.n[k] + Total(s, K \ {k})
\* attributes nested in these, at any depth, each before its own nested ones
RECURSIVE Nested(_, _)
Nested(as, i) == IF i > Len(as) THEN <<>> ELSE as[i][4] \o Nested(as[i][4], 1) \o Nested(as, i + 1)
RECURSIVE Concat(_, _)
Concat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Concat(ss, i + 1)

\* the value of a prototype, by type
DefaultText == [literal |-> "sUNKNOWN", discrete |-> "i0", continuous |-> "f0.0", boolean |-> "btrue", timestamp |-> "[1970, 1, 1, 0, 0, 0, 0, 0]"]
Range(q) == {q[i] : i \in 1 .. Len(q)}
Exactly(q, S) == Len(q) = Cardinality(S) /\ Range(q) = S
\* what a registry shows; loose: any attribute seen may have been the first
Show(s, o, firsts) ==
  LET K == DOMAIN s.n
      Is(p) == p[1] \in K /\ <<p[2], p[3]>> \in firsts[p[1]] /\ (p[2] \in DOMAIN DefaultText => p[4] = DefaultText[p[2]])
      R == 1 .. Len(o.protos)
      Of(q) == {o.protos[i] : i \in {j \in R : q = o.protos[j]}}
      Match(P(_)) == {o.protos[i] : i \in {j \in R : P(o.protos[j])}}
      KeysOf(S) == {p[1] : p \in S}
  IN  Clause("prototypes", Len(o.protos) = Cardinality(K) /\ KeysOf(Range(o.protos)) = K /\ \A i \in R : Is(o.protos[i]))
      \cup Clause("keys", Exactly(o.keys, K))
      \cup Clause("frequency", \A i \in 1 .. Len(o.freq) : o.freq[i][2] = s.n[o.freq[i][1]] /\ o.freq[i][3] = s.n[o.freq[i][1]] /\ o.freq[i][4] = s.n[o.freq[i][1]])
      \cup Clause("relative frequency", \A i \in 1 .. Len(o.rel) :
                     s.n[o.rel[i][1]] * o.rel[i][3] = o.rel[i][2] * Total(s, K) /\ s.n[o.rel[i][1]] * o.rel[i][5] = o.rel[i][4] * Total(s, K)
                     /\ s.n[o.rel[i][1]] * o.rel[i][7] = o.rel[i][6] * Total(s, K))
      \cup Clause("by type", \A i \in 1 .. Len(o.types) :
                     LET S == Match(LAMBDA p : p[2] = o.types[i][1]) IN Exactly(o.types[i][2], S) /\ Exactly(o.types[i][3], KeysOf(S)))
      \cup Clause("by extension", \A i \in 1 .. Len(o.exts) :
                     LET S == Match(LAMBDA p : p[3] = o.exts[i][1]) IN Exactly(o.exts[i][2], S) /\ Exactly(o.exts[i][3], KeysOf(S)))
      \cup Clause("without extension", LET S == Match(LAMBDA p : p[3] = "N") IN Exactly(o.without[1], S) /\ Exactly(o.without[2], KeysOf(S)))
Strict(s) == [k \in DOMAIN s.n |-> {s.first[k]}]
Loose(as) == [k \in {as[i][1] : i \in 1 .. Len(as)} |-> {<<as[i][2], as[i][3]>> : i \in {j \in 1 .. Len(as) : as[j][1] = k}}]
=============================================================================
