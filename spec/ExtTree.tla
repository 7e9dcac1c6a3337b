------------------------------ MODULE ExtTree ------------------------------
(* P15: an element with its attributes, as a function from paths of keys to  *)
(* the extension of the attribute there (NoExt for none), and the extension  *)
(* collection of a log.                                                      *)
EXTENDS Integers, Sequences, FiniteSets
NoExt == "N"
Tree0 == [p \in {} |-> NoExt]
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Below(t, p) == {q \in DOMAIN t : Prefix(p, q)}
Has(t, p) == p = <<>> \/ p \in DOMAIN t
DelEff(t, p) == [q \in DOMAIN t \ Below(t, p) |-> t[q]]
\* a fresh attribute replaces the one at that place with all it had
PutEff(t, p, x) == [q \in (DOMAIN t \ Below(t, p)) \cup {p} |-> IF q = p THEN x ELSE t[q]]
\* what the element at path p uses: all that lies strictly below
Uses(t, p) == {t[q] : q \in {r \in DOMAIN t : Prefix(p, r) /\ r # p}} \ {NoExt}

\* the same by recursion over the nesting, as the statement puts it
Children(t, p) == {q \in DOMAIN t : Len(q) = Len(p) + 1 /\ Prefix(p, q)}
RECURSIVE UsesRec(_, _)
UsesRec(t, p) == UNION {({t[q]} \ {NoExt}) \cup UsesRec(t, q) : q \in Children(t, p)}
=============================================================================
