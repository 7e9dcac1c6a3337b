------------------------------- MODULE MC_P10 -------------------------------
EXTENDS Cloning, McKit
CONSTANTS MaxOps, Places
VARIABLES h, hist
view == <<h, Len(hist)>>
Init == h = MakeEff(Heap0, Places) /\ hist = <<>>
Clone(i) == h' = CloneEff(h, i) /\ hist' = Append(hist, <<"clone", i>>)
Mut(i, p) == h' = MutEff(h, i, p, 100 + Len(hist)) /\ hist' = Append(hist, <<"mut", i, p>>)
Step == \E i \in 1 .. Len(h.own) : Clone(i) \/ \E p \in 1 .. Places : Mut(i, p)
Next == Len(hist) < MaxOps /\ Step /\ Emit(hist')
NoSharing == Disjoint(h)
\* a step changes what at most one root shows, and a clone shows what its source shows
OneAtATime == [][Cardinality({i \in 1 .. Len(h.own) : Shows(h', i) # Shows(h, i)}) <= 1]_<<h, hist>>
Faithful == [][Len(h'.own) > Len(h.own) =>
                 \E i \in 1 .. Len(h.own) : Shows(h', Len(h'.own)) = Shows(h, i) /\ \A j \in 1 .. Len(h.own) : Shows(h', j) = Shows(h, j)]_<<h, hist>>
=============================================================================
