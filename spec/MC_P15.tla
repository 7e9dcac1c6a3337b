------------------------------- MODULE MC_P15 -------------------------------
EXTENDS ExtTree, McKit
CONSTANTS MaxOps
VARIABLES t, hist
view == <<t, Len(hist)>>
Paths == {<<"a">>, <<"b">>, <<"a", "a">>, <<"a", "b">>, <<"a", "a", "b">>}
Exts == {"N", "concept", "x1"}
Init == t = Tree0 /\ hist = <<>>
Step == \/ \E p \in Paths, x \in Exts : Has(t, SubSeq(p, 1, Len(p) - 1)) /\ t' = PutEff(t, p, x) /\ hist' = Append(hist, <<"put", p, x>>)
        \/ \E p \in DOMAIN t : t' = DelEff(t, p) /\ hist' = Append(hist, <<"del", p>>)
Next == Len(hist) < MaxOps /\ Step /\ (IF Len(hist') = MaxOps THEN Emit(hist') ELSE TRUE)
Closed == \A p \in DOMAIN t : Has(t, SubSeq(p, 1, Len(p) - 1))
SameByRecursion == \A p \in DOMAIN t \cup {<<>>} : Uses(t, p) = UsesRec(t, p)
NothingOfNothing == (\A p \in DOMAIN t : t[p] = NoExt) => Uses(t, <<>>) = {}
Monotone == \A p \in DOMAIN t : Uses(t, p) \subseteq Uses(t, SubSeq(p, 1, Len(p) - 1))
=============================================================================
