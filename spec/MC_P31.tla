------------------------------- MODULE MC_P31 -------------------------------
(* Events, wrappers of them and wrappers of copies: assignments through      *)
(* wrappers and through the extensions, direct changes, wraps and clones.    *)
EXTENDS Wrappers, McKit
CONSTANTS MaxOps
VARIABLES s, hist
vars == <<s, hist>>
view == <<s, Len(hist)>>
As == {"name", "stamp", "standard"}
Tx == [x \in {"sa", "scomplete", "sunknown"} |-> [t |-> x, l |-> x, w |-> <<>>]]
Val(a, n) == [v |-> <<"sa", "scomplete">>[n], d |-> <<n>>, sign |-> 1, refs |-> <<>>]
Init == s = [el |-> <<NoMap>>, w |-> <<1>>] /\ hist = <<>>
Do(h) == Len(hist) < MaxOps /\ hist' = Append(hist, h) /\ Emit(hist')
Through == \E n \in 1 .. Len(s.w), a \in As, x \in 1 .. 2 : s' = SetBy(s, n, a, Val(a, x), Tx) /\ Do(<<"set", n, a, x>>)
Direct == \E i \in 1 .. Len(s.el), a \in {"name"}, x \in 1 .. 2 : s' = [s EXCEPT !.el[i] = Assign(@, a, Val(a, x), Tx)] /\ Do(<<"assign", i, a, x>>)
Clear == \E i \in 1 .. Len(s.el) : s.el[i] # NoMap /\ s' = [s EXCEPT !.el[i] = NoMap] /\ Do(<<"clear", i>>)
DoWrap == \E i \in 1 .. Len(s.el) : Len(s.w) < 3 /\ s' = Wrap(s, i) /\ Do(<<"wrap", i>>)
DoClone == \E n \in 1 .. Len(s.w) : Len(s.w) < 3 /\ s' = Clone(s, n) /\ Do(<<"clone", n>>)
Next == Through \/ Direct \/ Clear \/ DoWrap \/ DoClone
Live == \A n \in 1 .. Len(s.w) : \A a \in As : Get(s, n, a, Tx) = Extract(s.el[s.w[n]], a, Tx)
Together == \A n, m \in 1 .. Len(s.w) : s.w[n] = s.w[m] => \A a \in As : Get(s, n, a, Tx) = Get(s, m, a, Tx)
LastOp == hist'[Len(hist')]
CloneEqual == [][LastOp[1] = "clone" => \A a \in As : LET t == s' IN Get(t, Len(t.w), a, Tx) = Get(s, LastOp[2], a, Tx)]_vars
CopyApart == [][Cardinality({i \in 1 .. Len(s.el) : s'.el[i] # s.el[i]}) <= 1]_vars
=============================================================================
