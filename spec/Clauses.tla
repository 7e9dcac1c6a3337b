------------------------------ MODULE Clauses ------------------------------
Clause(name, holds) == IF holds THEN {} ELSE {name}
=============================================================================
