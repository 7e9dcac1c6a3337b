------------------------------- MODULE MC_P35 -------------------------------
(* A list, growing and changing: its text tells its children apart.          *)
EXTENDS Texts, McKit
CONSTANTS MaxOps
VARIABLES a, hist
vars == <<a, hist>>
view == <<a, Len(hist)>>
A(k, t, v) == [k |-> k, t |-> t, v |-> v, d |-> <<>>, c |-> <<>>]
New == {A("p", "literal", "sx"), A("q", "boolean", "btrue"), A("p", "list", ""), A("r", "id", "u0a")}
Values == [t \in {"literal", "boolean", "id"} |-> CASE t = "literal" -> {"sx", "s"} [] t = "boolean" -> {"btrue", "bfalse"} [] t = "id" -> {"u0a", "uf1"}]
RECURSIVE Paths(_)
Paths(x) == {<<>>} \cup UNION {{<<i>> \o p : p \in Paths(x.c[i])} : i \in 1 .. Len(x.c)}
RECURSIVE At(_, _)
At(x, p) == IF p = <<>> THEN x ELSE At(x.c[p[1]], Tail(p))
Init == a = A("l", "list", "") /\ hist = <<>>
Do(h) == Len(hist) < MaxOps /\ hist' = Append(hist, h) /\ Emit(hist')
Add(p, b) == Collection(At(a, p)) /\ Len(p) < 3 /\ a' = AddAt(a, p, b) /\ Do(<<"add", p, b.t>>)
SetV(p, v) == a' = SetAt(a, p, A("", "", v)) /\ Do(<<"set", p, v>>)
Next == \/ \E p \in Paths(a), b \in New : Add(p, b)
        \/ \E p \in Paths(a) : ~Collection(At(a, p)) /\ \E v \in Values[At(a, p).t] : SetV(p, v)
\* reading the text back: the children's keys and texts, in order
C(t, i) == SubSeq(t, i, i)
RECURSIVE Close(_, _, _)
Close(t, i, d) == LET e == d + (IF C(t, i) = "[" THEN 1 ELSE IF C(t, i) = "]" THEN -1 ELSE 0)
                  IN  IF e = 0 /\ C(t, i) = "]" THEN i ELSE Close(t, i + 1, e)
RECURSIVE Split(_, _, _, _)
Split(t, i, from, d) ==
  IF i > Len(t) THEN (IF t = "" THEN <<>> ELSE <<SubSeq(t, from, Len(t))>>)
  ELSE IF d = 0 /\ C(t, i) = "," THEN <<SubSeq(t, from, i - 1)>> \o Split(t, i + 1, i + 1, 0)
  ELSE Split(t, i + 1, from, d + (IF C(t, i) = "[" THEN 1 ELSE IF C(t, i) = "]" THEN -1 ELSE 0))
Told == LET t == Text(a)
            in == SubSeq(t, 2, Len(t) - 1)
        IN  /\ Close(t, 1, 0) = Len(t)
            /\ Split(in, 1, 1, 0) = [i \in 1 .. Len(a.c) |-> a.c[i].k \o ":" \o Text(a.c[i])]
Tells == [][LET h == hist'[Len(hist')] IN h[1] = "add" => Text(a') # Text(a)]_vars
=============================================================================
