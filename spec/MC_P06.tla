------------------------------- MODULE MC_P06 -------------------------------
(* Logs grown piece by piece: reading the MXML document of a log gives back  *)
(* what must come back of it, in the sense of TripBad.                       *)
EXTENDS MxmlDoc, McKit
CONSTANTS MaxOps, Keys
VARIABLES g, n
Vals(k) == CASE k = "lifecycle:transition" -> {"start", "Odd"} [] OTHER -> {"x"}
New == {[NoAttr EXCEPT !.k = k, !.t = "literal", !.v = "s" \o v] : k \in Keys, v \in {"x", "start", "Odd"}} \ {}
Fresh == {a \in New : SubSeq(a.v, 2, Len(a.v)) \in Vals(a.k)}
Init == g = [m |-> NoMap, tr |-> <<>>] /\ n = 0
GrowMap(m) == UNION {{Put(m, a.k, a)} : a \in Fresh}
              \cup UNION {{[m EXCEPT ![k].m = Put(@, a.k, a)] : a \in {b \in Fresh : b.k \in {"a", MRef}}} : k \in DOMAIN m}
Step ==
  \/ \E y \in GrowMap(g.m) : g' = [g EXCEPT !.m = y]
  \/ g' = [g EXCEPT !.tr = Append(@, [m |-> NoMap, ev |-> <<>>])]
  \/ \E i \in 1 .. Len(g.tr) : \E y \in GrowMap(g.tr[i].m) : g' = [g EXCEPT !.tr[i].m = y]
  \/ \E i \in 1 .. Len(g.tr) : g' = [g EXCEPT !.tr[i].ev = Append(@, [m |-> NoMap])]
  \/ \E i \in 1 .. Len(g.tr) : \E j \in 1 .. Len(g.tr[i].ev) : \E y \in GrowMap(g.tr[i].ev[j].m) : g' = [g EXCEPT !.tr[i].ev[j].m = y]
Next == n < MaxOps /\ n' = n + 1 /\ Step
View == g
Low == LET c == Carried(g) IN [i \in 1 .. Len(c) |-> [j \in 1 .. Len(c[i].ev) |->
         IF "lifecycle:transition" \in DOMAIN c[i].ev[j].m THEN Val(c[i].ev[j].m, "lifecycle:transition") ELSE ""]]
Trip == LET s == MxAll(Reader0, DocMx(g), 1) IN Len(s.logs) = 1 /\ TripBad(g, Low, s.logs[1]) = {}
Emitted == Emit(g)
=============================================================================
