------------------------------- MODULE Orders -------------------------------
(* Observed comparison matrices and the order they have to describe.         *)
(* e.sign[i][j]: sign of the comparison; e.ops[i][j]: the six operators      *)
(* < <= > >= == != ; e.h[i]: hash.                                           *)
EXTENDS Integers, Sequences, Clauses

Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
\* code point sequences
RECURSIVE CmpSeq(_, _, _)
CmpSeq(a, b, i) == IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
                   ELSE IF i > Len(b) THEN 1
                   ELSE IF a[i] # b[i] THEN Sign(a[i] - b[i])
                   ELSE CmpSeq(a, b, i + 1)
\* sequences of code point sequences, element by element
RECURSIVE CmpKeys(_, _, _)
CmpKeys(a, b, i) == IF i > Len(a) THEN 0
                    ELSE LET x == CmpSeq(a[i], b[i], 1) IN IF x # 0 THEN x ELSE CmpKeys(a, b, i + 1)

\* the laws of a total order, whatever it is
Antisymmetric(e) == \A i, j \in 1 .. Len(e.sign) : e.sign[i][j] = -e.sign[j][i]
Transitive(e) == \A i, j, k \in 1 .. Len(e.sign) :
                    e.sign[i][j] <= 0 /\ e.sign[j][k] <= 0
                      => /\ e.sign[i][k] <= 0
                         /\ (e.sign[i][k] = 0 <=> e.sign[i][j] = 0 /\ e.sign[j][k] = 0)
OpsAgree(e) == \A i, j \in 1 .. Len(e.sign) :
                 LET c == e.sign[i][j] IN e.ops[i][j] = <<c < 0, c <= 0, c > 0, c >= 0, c = 0, c # 0>>
HashAlike(e) == \A i, j \in 1 .. Len(e.sign) : e.ops[i][j][5] => e.h[i] = e.h[j]
Laws(e) == Clause("antisymmetric", Antisymmetric(e)) \cup Clause("transitive", Transitive(e))
           \cup Clause("operators", OpsAgree(e)) \cup Clause("hash", HashAlike(e))
=============================================================================
