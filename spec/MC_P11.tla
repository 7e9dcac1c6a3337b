------------------------------- MODULE MC_P11 -------------------------------
EXTENDS Creation, McKit
CONSTANTS MaxOps
VARIABLES s, hist, keep, sup
view == <<s, keep, Len(hist)>>
\* keep: does the library keep passed maps; sup: identities supplied so far
Init == s = New0(2) /\ hist = <<>> /\ keep \in BOOLEAN /\ sup = {}
Kinds == {"event", "other", "coll"}
Fresh == 100 + Len(s.el)
Create(k, g, id) == /\ s' = CreateEff(s, g, keep, IF k # "event" THEN 0 ELSE IF id = 0 THEN Fresh ELSE id)
                    /\ hist' = Append(hist, <<"new", k, g, id>>)
                    /\ sup' = sup \cup ({id} \ {0})
Change(w, i) == /\ s' = CASE w = "map" -> MapEff(s, i, 1000 + Len(hist)) [] w = "rest" -> RestEff(s, i, 1000 + Len(hist))
                /\ hist' = Append(hist, <<w, i>>) /\ UNCHANGED sup
Step == \/ \E k \in Kinds, g \in 0 .. 2 : \E id \in IF k = "event" THEN {0, 1} ELSE {0} :
             (k = "coll" => g = 0) /\ Create(k, g, id)
        \/ \E i \in 1 .. Len(s.el), w \in {"map", "rest"} : Change(w, i)
Next == Len(hist) < MaxOps /\ Step /\ UNCHANGED keep /\ (IF keep THEN Emit(hist') ELSE TRUE)
Unique == \A i, j \in 1 .. Len(s.el) : i # j /\ s.el[i].id # 0 /\ s.el[i].id = s.el[j].id => s.el[i].id \in sup
Isolated == [][\A i \in 1 .. Len(s.el) :
                 /\ Map(s', i) # Map(s, i) => Len(s'.el) = Len(s.el) /\ \E j \in 1 .. Len(s.el) : MaySee(s, j, i)
                 /\ Cardinality({j \in 1 .. Len(s.el) : Rest(s', j) # Rest(s, j)}) <= 1]_<<s, hist>>
=============================================================================
