------------------------------- MODULE MC_P30 -------------------------------
(* An attribute is created, given nested attributes and children, changed;   *)
(* prototypes are derived of it and of prototypes.                           *)
EXTENDS Proto, McKit
CONSTANTS MaxOps
VARIABLES a, protos, hist
vars == <<a, protos, hist>>
view == <<a, protos, Len(hist)>>
None0 == [t |-> "none", val |-> 0, kids |-> 0]
Init == a = None0 /\ protos = <<>> /\ hist = <<>>
New == a = None0 /\ \E t \in Types : a' = [t |-> t, val |-> 1, kids |-> 0] /\ hist' = Append(hist, <<"new", t>>) /\ UNCHANGED protos
Grow == a # None0 /\ \E h \in {"nest", "child"} : (h = "child" => a.t \in {"list", "container"}) /\ a' = [a EXCEPT !.kids = @ + 1] /\ hist' = Append(hist, <<h, a.t>>) /\ UNCHANGED protos
Set == a # None0 /\ a.t \notin {"list", "container"} /\ a' = [a EXCEPT !.val = @ + 1] /\ hist' = Append(hist, <<"set", a.t>>) /\ UNCHANGED protos
DeriveOf(x) == [x EXCEPT !.val = IF x.t \in {"list", "container"} THEN x.val ELSE IF x.t = "id" THEN 100 + Len(protos) ELSE 0]
Derive == a # None0 /\ \E i \in 0 .. Len(protos) :
            protos' = Append(protos, DeriveOf(IF i = 0 THEN a ELSE protos[i])) /\ hist' = Append(hist, <<"derive", ToString(i)>>) /\ UNCHANGED a
Next == Len(hist) < MaxOps /\ (New \/ Grow \/ Set \/ Derive) /\ (IF hist'[Len(hist')][1] = "derive" THEN Emit(hist') ELSE TRUE)
OneType == \A t, u \in Types : t # u => ClassOf(t) # ClassOf(u) /\ NameOf(t) # NameOf(u)
Typed == \A i \in 1 .. Len(protos) : protos[i].t = a.t
FreshIds == a.t = "id" => \A i, j \in 1 .. Len(protos) : i # j => protos[i].val # protos[j].val
Pure == [][hist # <<>> /\ hist'[Len(hist')][1] = "derive" => a' = a /\ SubSeq(protos', 1, Len(protos)) = protos]_vars
=============================================================================
