------------------------------ MODULE Compare ------------------------------
(* P13: the order of each kind of value.  Texts are code point sequences;    *)
(* numbers are [neg, mag], mag the decimal digits of the magnitude (of an    *)
(* integer) or of the bits of the magnitude (of a float: the same order).    *)
EXTENDS Orders, Temporal
CmpMag(a, b) == IF Len(a) # Len(b) THEN Sign(Len(a) - Len(b)) ELSE CmpSeq(a, b, 1)
CmpNum(a, b) == IF a.neg # b.neg THEN (IF a.neg THEN -1 ELSE 1)
                ELSE IF a.neg THEN CmpMag(b.mag, a.mag) ELSE CmpMag(a.mag, b.mag)
CmpBool(a, b) == IF a = b THEN 0 ELSE IF b THEN -1 ELSE 1     \* false before true
CmpInst(a, b) == LET x == InstantOf(a)
                     y == InstantOf(b)
                 IN  IF InstantLess(x, y) THEN -1 ELSE IF InstantLess(y, x) THEN 1 ELSE 0
CmpVal(kind, a, b) ==
  CASE kind = "literal" -> CmpSeq(a, b, 1)
    [] kind \in {"discrete", "continuous"} -> CmpNum(a, b)
    [] kind = "boolean" -> CmpBool(a, b)
    [] kind = "timestamp" -> CmpInst(a, b)
    [] kind \in {"list", "container", "collection", "attribute"} -> 0       \* by key alone
Cmp(kind, a, b) ==
  CASE kind = "class" -> CmpSeq(a.k, b.k, 1)
    [] kind = "classifier" ->
         LET n == CmpSeq(a.k, b.k, 1)
         IN  IF n # 0 THEN n
             ELSE IF Len(a.v) # Len(b.v) THEN Sign(Len(a.v) - Len(b.v))
             ELSE CmpKeys(a.v, b.v, 1)
    [] OTHER -> LET n == CmpSeq(a.k, b.k, 1) IN IF n # 0 THEN n ELSE CmpVal(kind, a.v, b.v)
\* identities: any total order on them
Expected(kind, it, e) ==
  IF kind \in {"xid"} THEN \A i, j \in 1 .. Len(it) : e.sign[i][j] = 0 <=> it[i].v = it[j].v
  ELSE IF kind = "id"
  THEN \A i, j \in 1 .. Len(it) :
         LET n == CmpSeq(it[i].k, it[j].k, 1)
         IN  IF n # 0 THEN e.sign[i][j] = n ELSE (e.sign[i][j] = 0 <=> it[i].v = it[j].v)
  ELSE \A i, j \in 1 .. Len(it) : e.sign[i][j] = Cmp(kind, it[i], it[j])
\* objects of any kinds: of different kinds they are never equal
Alike(a, b) == a.kind = b.kind /\ (IF a.kind \in {"xid"} THEN a.v = b.v ELSE IF a.kind = "id" THEN a.k = b.k /\ a.v = b.v ELSE Cmp(a.kind, a, b) = 0)
=============================================================================
