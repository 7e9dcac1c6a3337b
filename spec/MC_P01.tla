------------------------------- MODULE MC_P01 -------------------------------
(* A log grown piece by piece; at every point reading its document gives it  *)
(* back.  (Dates are left to P07: here they stand as texts of fixed value.)  *)
EXTENDS XesDoc, McKit
CONSTANTS MaxOps, Keys, Types
VARIABLES g, n
Empty == [m |-> NoMap, tr |-> <<>>, gt |-> <<>>, ge |-> <<>>, cl |-> <<>>, ex |-> {}]
Init == g = Empty /\ n = 0
Val(t) == CASE t = "literal" -> "sx" [] t = "discrete" -> "i7" [] t = "continuous" -> "f0.5" [] t = "boolean" -> "btrue"
            [] t = "id" -> "u00000000-0000-0000-0000-000000000001" [] OTHER -> ""
New == {[NoAttr EXCEPT !.k = k, !.t = t, !.v = Val(t), !.x = ExtOf(k)] : k \in Keys, t \in Types}
\* all results of adding attribute a somewhere in attribute b
RECURSIVE Grow(_, _)
Grow(b, a) ==
  IF b.t \in Collections
  THEN {[b EXCEPT !.c = Append(@, a)]} \cup UNION {{[b EXCEPT !.c[i] = y] : y \in Grow(b.c[i], a)} : i \in 1 .. Len(b.c)}
  ELSE {[b EXCEPT !.m = Put(@, a.k, a)]} \cup UNION {{[b EXCEPT !.m[k] = y] : y \in Grow(b.m[k], a)} : k \in DOMAIN b.m}
GrowMap(m, a) == {Put(m, a.k, a)} \cup UNION {{[m EXCEPT ![k] = y] : y \in Grow(m[k], a)} : k \in DOMAIN m}
GrowSeq(s, a) == {Append(s, a)} \cup UNION {{[s EXCEPT ![i] = y] : y \in Grow(s[i], a)} : i \in 1 .. Len(s)}
Step ==
  \/ \E a \in New : \E y \in GrowMap(g.m, a) : g' = [g EXCEPT !.m = y]
  \/ \E a \in New : \E y \in GrowSeq(g.gt, a) : g' = [g EXCEPT !.gt = y]
  \/ \E a \in New : \E y \in GrowSeq(g.ge, a) : g' = [g EXCEPT !.ge = y]
  \/ g' = [g EXCEPT !.tr = Append(@, [m |-> NoMap, ev |-> <<>>])]
  \/ \E i \in 1 .. Len(g.tr) : \E a \in New : \E y \in GrowMap(g.tr[i].m, a) : g' = [g EXCEPT !.tr[i].m = y]
  \/ \E i \in 1 .. Len(g.tr) : g' = [g EXCEPT !.tr[i].ev = Append(@, [m |-> NoMap])]
  \/ \E i \in 1 .. Len(g.tr) : \E j \in 1 .. Len(g.tr[i].ev) : \E a \in New : \E y \in GrowMap(g.tr[i].ev[j].m, a) :
       g' = [g EXCEPT !.tr[i].ev[j].m = y]
  \/ \E k \in Keys : g' = [g EXCEPT !.cl = Append(@, <<"c", <<k>>>>)]
  \/ \E x \in {"concept", "time"} \ g.ex : g' = [g EXCEPT !.ex = @ \cup {x}]
Next == n < MaxOps /\ n' = n + 1 /\ Step
View == g
RoundTrip == LET s == ReadAll(Reader0, DocLog(g), 1)
             IN  s.done /\ s.fr = <<>> /\ s.skip = 0 /\ LogOf(s) = g
Emitted == Emit(g)   \* once per distinct log
=============================================================================
