------------------------------- MODULE MC_P17 -------------------------------
(* Two sets of classes, registrations and harmonizations in any order.       *)
EXTENDS EventClasses, McKit
CONSTANTS MaxOps
VARIABLES sets, hist
vars == <<sets, hist>>
view == <<sets, Len(hist)>>
Ids == {<<1>>, <<2>>, <<1, 1>>}
Groups == {<<>>} \cup {<<a>> : a \in Ids} \cup {<<<<2>>, <<1>>>>, <<<<1, 1>>, <<1>>, <<1, 1>>>>}
Init == sets = <<Fresh, Fresh>> /\ hist = <<>>
Do(h) == /\ Len(hist) < MaxOps
         /\ hist' = Append(hist, h)
         /\ Emit(hist')
Reg(i, g) == sets' = [sets EXCEPT ![i] = AddAll(@, g, 1)] /\ Do(<<i, g>>)
Harm(i) == sets' = [sets EXCEPT ![i] = Harmonize(@)] /\ Do(<<i>>)
Set(i, id, n) == id \in DOMAIN sets[i].n /\ sets' = [sets EXCEPT ![i] = SetSize(@, id, n)] /\ Do(<<i, id, n>>)
Next == \E i \in 1 .. 2 : Harm(i) \/ \E g \in Groups : Reg(i, g)
                          \/ \E id \in Ids, n \in {0, 7} : Set(i, id, n)
Total(s) == LET RECURSIVE T(_)
                T(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN s.n[x] + T(S \ {x})
            IN  T(DOMAIN s.n)
RECURSIVE Registered(_, _)
Registered(i, j) == IF j > Len(hist) THEN 0 ELSE (IF hist[j][1] = i /\ Len(hist[j]) = 2 THEN Len(hist[j][2]) ELSE 0) + Registered(i, j + 1)
Explicit(i) == \E j \in 1 .. Len(hist) : hist[j][1] = i /\ Len(hist[j]) = 3
SizesAddUp == \A i \in 1 .. 2 : Explicit(i) \/ Total(sets[i]) = Registered(i, 1)
\* ranks are the indices 0 .. n - 1, so that the observations can be met
RanksCover == \A i \in 1 .. 2 : {Rank(sets[i], x) : x \in DOMAIN sets[i].n} = 0 .. Cardinality(DOMAIN sets[i].n) - 1
\* harmonizing keeps all sizes, whether counted or set
HarmKeeps == [][Len(hist'[Len(hist')]) = 1 => \A i \in 1 .. 2 : sets'[i].n = sets[i].n]_vars
Isolated == [][\A i \in 1 .. 2 : hist'[Len(hist')][1] # i => sets'[i] = sets[i]]_vars
=============================================================================
