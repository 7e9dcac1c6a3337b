------------------------------- MODULE MC_P16 -------------------------------
(* Three events whose attributes come, change and go under every key list.   *)
EXTENDS Classify, McKit
CONSTANTS MaxKeys, Events
VARIABLES ks, ev
Keys == {<<1>>, <<2>>, <<1, 1>>}
Values == {<<>>, <<5>>, <<6>>}
KeyLists == UNION {[1 .. n -> Keys] : n \in 0 .. MaxKeys}
Blank == [i \in 1 .. Events |-> <<>>]
Init == ks \in KeyLists /\ ev = Blank
Without(e, k) == SelectSeq(e, LAMBDA p : p[1] # k)
\* set, or remove, one attribute of one event; the pairs are kept in key order
Sorted(e) == LET d == {e[i][1] : i \in 1 .. Len(e)}
                 o == SortKeys(d)
             IN  [i \in 1 .. Len(o) |-> <<o[i], ValueOf(e, o[i])>>]
\* the histories told to the driver: all of the short key lists, and those of the long ones in which the other event is plain
Tell(i, h) == IF Len(ks) <= 2 \/ (i = 1 /\ Len(ev[2]) <= 1) THEN Emit(h) ELSE TRUE
Set(i, k, v) == /\ ev' = [ev EXCEPT ![i] = Sorted(Append(Without(@, k), <<k, v>>))]
                /\ Tell(i, <<ks, ev, i, k, v>>)
Del(i, k) == /\ HasKey(ev[i], k)
             /\ ev' = [ev EXCEPT ![i] = Without(@, k)]
             /\ Tell(i, <<ks, ev, i, k>>)
Next == /\ UNCHANGED ks
        /\ \E i \in 1 .. Events, k \in {ks[j] : j \in 1 .. Len(ks)} \cup {<<2>>} : Del(i, k) \/ \E v \in Values : Set(i, k, v)
E3 == 1 .. Events
Equivalence == /\ \A i \in E3 : Same(ks, ev[i], ev[i])
               /\ \A i, j \in E3 : Same(ks, ev[i], ev[j]) = Same(ks, ev[j], ev[i])
               /\ \A i, j, k \in E3 : Same(ks, ev[i], ev[j]) /\ Same(ks, ev[j], ev[k]) => Same(ks, ev[i], ev[k])
IdentityDecides == \A i, j \in E3 : Same(ks, ev[i], ev[j]) <=> Identity(ks, ev[i]) = Identity(ks, ev[j])
\* a missing attribute is an empty one
MissingIsEmpty == \A i \in E3, k \in Keys : ~HasKey(ev[i], k) => Identity(ks, ev[i]) = Identity(ks, Append(ev[i], <<k, <<>>>>))
\* the composite groups as all its parts do, however the keys are split
Composite == \A n \in 0 .. Len(ks) :
               LET parts == <<[name |-> <<1>>, keys |-> SubSeq(ks, 1, n)], [name |-> <<2>>, keys |-> SubSeq(ks, n + 1, Len(ks))]>>
                   all == AndKeys(parts)
               IN  /\ IsSortedUnion(all, parts)
                   /\ \A i, j \in E3 : Same(all, ev[i], ev[j]) <=> \A p \in 1 .. 2 : Same(parts[p].keys, ev[i], ev[j])
=============================================================================
