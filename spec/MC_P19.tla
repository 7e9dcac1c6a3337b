------------------------------- MODULE MC_P19 -------------------------------
(* Two bounds; dates, events with or without a time and bounds (each other   *)
(* and itself) registered in any order.                                      *)
EXTENDS Bounds, McKit
CONSTANTS MaxOps, Times
VARIABLES b, seen, hist
vars == <<b, seen, hist>>
view == <<b, Len(hist)>>
At(t) == <<0, t, 0>>
Init == b = <<<<>>, <<>>>> /\ seen = <<{}, {}>> /\ hist = <<>>
Do(h) == Len(hist) < MaxOps /\ hist' = Append(hist, h) /\ Emit(hist')
Date(i, t) == b' = [b EXCEPT ![i] = Wide(@, At(t))] /\ seen' = [seen EXCEPT ![i] = @ \cup {t}] /\ Do(<<"date", i, t>>)
Event(i, t) == IF t = 0 THEN UNCHANGED <<b, seen>> /\ Do(<<"event", i, 0>>)
               ELSE b' = [b EXCEPT ![i] = Wide(@, At(t))] /\ seen' = [seen EXCEPT ![i] = @ \cup {t}] /\ Do(<<"event", i, t>>)
Bound(i, j) == b' = [b EXCEPT ![i] = Merge(@, b[j])] /\ seen' = [seen EXCEPT ![i] = @ \cup seen[j]] /\ Do(<<"bounds", i, j>>)
Next == \E i \in 1 .. 2 : (\E t \in 1 .. Times : Date(i, t)) \/ (\E t \in 0 .. Times : Event(i, t)) \/ (\E j \in 1 .. 2 : Bound(i, j))
\* the extremes of everything registered, directly or through other bounds
Extremes == \A i \in 1 .. 2 :
              IF seen[i] = {} THEN b[i] = <<>>
              ELSE \E lo, hi \in seen[i] : /\ b[i] = <<At(lo), At(hi)>>
                                           /\ \A t \in seen[i] : lo <= t /\ t <= hi /\ Within(b[i], At(t))
Grow == [][\A i \in 1 .. 2, t \in 0 .. Times + 1 : Within(b[i], At(t)) => Within(b'[i], At(t))]_vars
=============================================================================
