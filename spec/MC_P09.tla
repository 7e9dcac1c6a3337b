------------------------------- MODULE MC_P09 -------------------------------
EXTENDS Parsing, McKit
CONSTANTS MaxOps
VARIABLES s, hist
view == <<s, Len(hist)>>
Parsers == {"x1", "x2", "m1", "m2"}
Docs(p) == IF p \in {"x1", "x2"} THEN {"X1", "X2", "XB"} ELSE {"M1", "M2", "MB"}
Bad == {"XB", "MB"}
Init == /\ s = [World0(Parsers) EXCEPT !.parsers = [p \in Parsers |-> [own |-> IF p \in {"x2", "m2"} THEN "F1" ELSE "none", built |-> "F0"]]]
        /\ hist = <<>>
Do(op, t) == s' = t /\ hist' = Append(hist, op)
P(t, d) == IF d \in Bad THEN t ELSE ParseEff(t, d)
Step == \/ \E p \in Parsers : \E d \in Docs(p) : Do(<<"parse", p, d>>, P(s, d))
        \/ \E p \in Parsers, q \in Parsers : \E d \in Docs(p) \ Bad, e \in Docs(q) :
              Do(<<"nest", p, d, q, e>>, P(P(s, e), d))
        \/ \E r \in 1 .. Len(s.res) : s.res[r].ver = 0 /\ Do(<<"trash", r>>, TrashEff(s, r))
        \/ \E f \in {"F0", "F2"} \ {s.def} : Do(<<"default", f>>, DefaultEff(s, f))
        \/ \E p \in {"x1", "m1"} : s.parsers[p].built # s.def /\ Do(<<"build", p>>, BuildEff(s, p, "none"))
Next == Len(hist) < MaxOps /\ Step /\ Emit(hist')
\* no result of another document, nothing gone
Stable == \A i \in 1 .. Len(s.res) : s.res[i].doc \notin Bad
Owned == \A p \in Parsers : s.parsers[p].own # "none" => Makers(s, p) = {s.parsers[p].own}
Grows == [][Len(s'.res) >= Len(s.res) /\ \A i \in 1 .. Len(s.res) : s'.res[i].doc = s.res[i].doc]_<<s, hist>>
=============================================================================
