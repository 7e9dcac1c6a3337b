------------------------------- MODULE MC_P23 -------------------------------
(* Extensions (several with one uri) registered in any order, again and      *)
(* again; attributes added to and taken from their levels.                   *)
EXTENDS ExtManager, McKit
CONSTANTS MaxOps
VARIABLES l, def, hist
vars == <<l, def, hist>>
view == <<l, def, Len(hist)>>
\* objects: 1, 2 share a uri; 3 its own; 4 has the uri of a known one
Pool == << [uri |-> "u1", name |-> "n1", prefix |-> "p1", obj |-> 1], [uri |-> "u1", name |-> "n2", prefix |-> "p2", obj |-> 2],
           [uri |-> "u2", name |-> "n3", prefix |-> "p3", obj |-> 3], [uri |-> "u0", name |-> "n4", prefix |-> "p4", obj |-> 4] >>
Known == <<[uri |-> "u0", name |-> "n0", prefix |-> "p0", obj |-> 9], [uri |-> "u9", name |-> "n9", prefix |-> "p9", obj |-> 8]>>
Attrs == {"a", "b"}
Init == l = Known /\ def = [i \in 1 .. 2 |-> <<{}, {}, {}, {}>>] /\ hist = <<>>
Do(h) == Len(hist) < MaxOps /\ hist' = Append(hist, h) /\ Emit(hist')
Reg(i) == l' = Register(l, Pool[i]) /\ UNCHANGED def /\ Do(<<"reg", i>>)
Put(i, n, a) == def' = [def EXCEPT ![i][n] = @ \cup {a}] /\ UNCHANGED l /\ Do(<<"put", i, n, a>>)
Take(i, n, a) == a \in def[i][n] /\ def' = [def EXCEPT ![i][n] = @ \ {a}] /\ UNCHANGED l /\ Do(<<"take", i, n, a>>)
Next == (\E i \in 1 .. 4 : Reg(i)) \/ (\E i \in 1 .. 2, n \in {1, 3}, a \in Attrs : Put(i, n, a) \/ Take(i, n, a))
OnePerUri == \A i, j \in 1 .. Len(l) : l[i].uri = l[j].uri => i = j
Inverse == \A i \in 1 .. Len(l) : At(l, l[i].uri) = {i}
Replaced == [][/\ Len(l') >= Len(l)
               /\ \A i \in 1 .. Len(l) : l'[i].uri = l[i].uri
               /\ hist'[Len(hist')][1] = "reg" => LET x == Pool[hist'[Len(hist')][2]] IN By(l', LAMBDA y : y.uri, x.uri) = {x.obj} /\ (Knows(l, x.uri) => Len(l') = Len(l))]_vars
=============================================================================
