------------------------------ MODULE Cloning ------------------------------
(* P10: a heap of mutable parts.  A root owns one part per place (its        *)
(* attributes, a value, a nested child, a collection); a part has contents,  *)
(* a number.  Cloning copies the contents into new parts; a mutation writes  *)
(* one part.  What a root shows is the contents of its parts.                *)
EXTENDS Integers, Sequences, FiniteSets

Heap0 == [own |-> <<>>, val |-> <<>>]     \* own: root -> place -> part; val: part -> contents
MakeEff(h, places) ==
  LET n == Len(h.val)
  IN  [own |-> Append(h.own, [p \in 1 .. places |-> n + p]),
       val |-> h.val \o [p \in 1 .. places |-> Len(h.own) + 1]]
CloneEff(h, i) ==
  LET n == Len(h.val)
      ps == Len(h.own[i])
  IN  [own |-> Append(h.own, [p \in 1 .. ps |-> n + p]),
       val |-> h.val \o [p \in 1 .. ps |-> h.val[h.own[i][p]]]]
\* tick: contents no part ever had
MutEff(h, i, p, tick) == [h EXCEPT !.val[h.own[i][p]] = tick]
Shows(h, i) == [p \in 1 .. Len(h.own[i]) |-> h.val[h.own[i][p]]]
Reach(h, i) == {h.own[i][p] : p \in 1 .. Len(h.own[i])}
Disjoint(h) == \A i, j \in 1 .. Len(h.own) : i # j => Reach(h, i) \cap Reach(h, j) = {}
=============================================================================
