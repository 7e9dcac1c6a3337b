------------------------------ MODULE Looking ------------------------------
(* P38: questions asked of a log between changes.  The answer to a question  *)
(* is a function of what the log holds: memo is the part of that function    *)
(* seen so far, a map from <<contents, question>> to the answer.  Asking     *)
(* changes nothing; a change takes the log to other contents and back to     *)
(* former ones; a log rebuilt from the same contents answers the same.       *)
EXTENDS Integers, Sequences, FiniteSets, Clauses
NoMemo == [p \in {} |-> ""]
KnownTo(memo, s, q) == <<s, q>> \in DOMAIN memo
Learn(memo, s, q, a) == [p \in DOMAIN memo \cup {<<s, q>>} |-> IF p = <<s, q>> THEN a ELSE memo[p]]
\* the answers possible to question q on contents s
Possible(memo, s, q, a) == ~KnownTo(memo, s, q) \/ memo[<<s, q>>] = a
=============================================================================
