------------------------------ MODULE Creation ------------------------------
(* P11: elements and the parts they own.  An element has a map part and a    *)
(* contents part; events have an identity.  A caller may pass a map, which   *)
(* the element may keep (then elements given the same map share it) or copy. *)
(* state: [el: sequence of [grp, map, rest, id], val: contents of the parts] *)
(* grp: the map passed, 0 for none.  Parts 1 .. Given are the caller's maps. *)
EXTENDS Integers, Sequences, FiniteSets

New0(given) == [el |-> <<>>, val |-> [i \in 1 .. given |-> i]]
\* keep: the element keeps the caller's map rather than a copy
CreateEff(s, grp, keep, id) ==
  LET n == Len(s.val)
      own == n + 1
  IN  [el |-> Append(s.el, [grp |-> grp, map |-> IF grp # 0 /\ keep THEN grp ELSE own, rest |-> n + 2, id |-> id]),
       val |-> s.val \o <<IF grp = 0 THEN 0 ELSE s.val[grp], 0>>]
MapEff(s, i, tick) == [s EXCEPT !.val[s.el[i].map] = tick]
RestEff(s, i, tick) == [s EXCEPT !.val[s.el[i].rest] = tick]
IdEff(s, i, id) == [s EXCEPT !.el[i].id = id]
Map(s, i) == s.val[s.el[i].map]
Rest(s, i) == s.val[s.el[i].rest]
\* may a change of the map of i be seen through j
MaySee(s, i, j) == i = j \/ (s.el[i].grp # 0 /\ s.el[i].grp = s.el[j].grp)
=============================================================================
