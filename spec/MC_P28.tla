------------------------------- MODULE MC_P28 -------------------------------
(* Two global mappings, one mapping apart bearing the standard's name, two   *)
(* keys, two aliases: registrations through the facility or a mapping,       *)
(* requests that create, questions that must not.                            *)
EXTENDS NameMaps, McKit
CONSTANTS MaxOps
VARIABLES s, hist
vars == <<s, hist>>
view == <<s, Len(hist)>>
Keys == {"a", "b"}
Als == {"sx", "sy"}
Names == {"EN", "DE"}
Init == s = Apart(Start, "EN") /\ hist = <<>>
Do(h) == Len(hist) < MaxOps /\ hist' = Append(hist, h) /\ Emit(hist')
ByName == \E n \in Names, k \in Keys, a \in Als : s' = Reg(s, n, k, a) /\ Do(<<"reg", n, k, a>>)
Mine == \E k \in Keys, a \in Als : s' = RegAt(s, 2, k, a) /\ Do(<<"mine", k, a>>)
Get == \E n \in Names : s' = Made(s, n) /\ Do(<<"get", n>>)
Next == ByName \/ Mine \/ Get
Numbers == 1 .. Len(s.map)
AlwaysNamed == \A i \in Numbers, k \in Keys : Safely(s, i, k) \in Als \cup {"s" \o k}
Preferred == \A i \in Numbers, k \in Keys : Lookup(s, i, k) # None => Safely(s, i, k) = Lookup(s, i, k)
UnknownIsStandard == \A k \in Keys : SafelyByName(s, "FR", k) = Safely(s, Standard(s), k)
OncePerName == \A n, m \in DOMAIN s.glob : s.glob[n] = s.glob[m] => n = m
\* an operation touches one alias of one mapping
Apartness == [][Cardinality({x \in Numbers \X Keys : Lookup(s, x[1], x[2]) # LET z == s' IN Lookup(z, x[1], x[2])}) <= 1]_vars
Kept == [][\A n \in DOMAIN s.glob : s'.glob[n] = s.glob[n]]_vars
=============================================================================
