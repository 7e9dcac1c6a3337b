------------------------------ MODULE Parsing ------------------------------
(* P09: parsers, documents, factories and the logs made so far.  A parse     *)
(* adds a result that is a function of the document; nothing else depends on *)
(* what was parsed.                                                          *)
(* state: [def, parsers: name -> [own, built], res: sequence of              *)
(* [doc, ver]]  ("none": no factory of its own).                             *)
EXTENDS Integers, Sequences, FiniteSets

World0(names) == [def |-> "F0", parsers |-> [p \in names |-> [own |-> "none", built |-> "none"]], res |-> <<>>]
BuildEff(s, p, own) == [s EXCEPT !.parsers[p] = [own |-> own, built |-> s.def]]
DefaultEff(s, f) == [s EXCEPT !.def = f]
ParseEff(s, d) == [s EXCEPT !.res = Append(@, [doc |-> d, ver |-> 0])]
TrashEff(s, r) == [s EXCEPT !.res[r].ver = @ + 1]
\* the factories a parse may draw on
Makers(s, p) == IF s.parsers[p].own # "none" THEN {s.parsers[p].own} ELSE {s.def, s.parsers[p].built}
=============================================================================
