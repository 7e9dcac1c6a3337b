------------------------------- MODULE MC_P33 -------------------------------
(* Obtaining the standard extensions in any order, directly or through the   *)
(* manager, with other work in between; and that the table is well formed.   *)
EXTENDS StdExt, McKit
CONSTANTS MaxOps
VARIABLES known, hist
vars == <<known, hist>>
view == <<known, Len(hist)>>
Init == known = Nothing /\ hist = <<>>
Do(h) == /\ Len(hist) < MaxOps
         /\ hist' = Append(hist, h)
         /\ Emit(hist')
Next == \/ \E x \in Prefixes : known' = Obtain(known, x) /\ Do(x)
        \/ known' = Manager(known) /\ Do("manager")
        \/ known' = Use(known) /\ Do("use")
Unique == /\ \A a, b \in Attrs : a.k = b.k => a = b
          /\ \A x, y \in Prefixes : Ext[x].uri = Ext[y].uri \/ Ext[x].name = Ext[y].name => x = y
          /\ \A m, n \in Names : m[1] = n[1] /\ m[2] = n[2] => m = n
Prefixed == \A a \in Attrs : a.x \in Prefixes /\ SubSeq(a.k, 1, Len(a.x) + 1) = a.x \o ":"
Placed == \A a \in Attrs : a.at # {} /\ a.at \subseteq Levels
Named == /\ \A a \in Attrs : NameOf("EN", a.k) # "N"
         /\ \A n \in Names : n[1] \in Languages /\ \E a \in Attrs : a.k = n[2]
Stays == [][known \subseteq known']_vars
=============================================================================
