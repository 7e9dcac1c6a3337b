------------------------------- MODULE MC_P22 -------------------------------
(* Two registries and four instances; registrations and defaults in any      *)
(* order.                                                                    *)
EXTENDS Registry, McKit
CONSTANTS MaxOps
VARIABLES r, hist
vars == <<r, hist>>
view == <<r, Len(hist)>>
Init == r = <<Vacant, Vacant>> /\ hist = <<>>
Do(h) == Len(hist) < MaxOps /\ hist' = Append(hist, h) /\ Emit(hist')
Reg(n, i) == r' = [r EXCEPT ![n] = Register(@, i)] /\ Do(<<"register", n, i>>)
Def(n, i) == r' = [r EXCEPT ![n] = SetDefault(@, i)] /\ Do(<<"default", n, i>>)
Next == \E n \in 1 .. 2, i \in 1 .. 3 : Reg(n, i) \/ Def(n, i)
DefaultIn == \A n \in 1 .. 2 : Sound(r[n])
Grows == [][\A n \in 1 .. 2 : r[n].in \subseteq r'[n].in]_vars
Undisplaced == [][\A n \in 1 .. 2 : r[n].cur # 0 /\ hist'[Len(hist')][1] = "register" => r'[n].cur = r[n].cur]_vars
AgainNothing == [][\A n \in 1 .. 2 : hist'[Len(hist')][1] = "register" /\ hist'[Len(hist')][3] \in r[n].in => r'[n] = r[n]]_vars
=============================================================================
