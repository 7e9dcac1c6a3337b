------------------------------- MODULE MC_P20 -------------------------------
(* Two registries; attributes of every key, type and extension in any order. *)
EXTENDS AttrInfo, McKit
CONSTANTS MaxOps
VARIABLES r, hist
vars == <<r, hist>>
view == <<r, Len(hist)>>
Attrs == {<<k, t, x, <<>>>> : k \in {"a", "b", "c"}, t \in {"literal", "discrete"}, x \in {"N", "concept"}}
Init == r = <<Nothing, Nothing>> /\ hist = <<>>
Next == \E i \in 1 .. 2, a \in Attrs :
          /\ Len(hist) < MaxOps
          /\ (i = 2 => a[1] # "c" /\ a[2] = "literal")
          /\ r' = [r EXCEPT ![i] = Reg(@, a)]
          /\ hist' = Append(hist, <<i, a[1], a[2], a[3]>>)
          /\ (IF Len(hist') = MaxOps THEN Emit(hist') ELSE TRUE)
Mine(i) == SelectSeq(hist, LAMBDA h : h[1] = i)
Counts == \A i \in 1 .. 2 : Total(r[i], DOMAIN r[i].n) = Len(Mine(i))
First == \A i \in 1 .. 2 : \A k \in DOMAIN r[i].n :
           LET m == SelectSeq(Mine(i), LAMBDA h : h[2] = k) IN r[i].first[k] = <<m[1][3], m[1][4]>> /\ r[i].n[k] = Len(m)
Isolated == [][\A i \in 1 .. 2 : hist'[Len(hist')][1] # i => r'[i] = r[i]]_vars
=============================================================================
