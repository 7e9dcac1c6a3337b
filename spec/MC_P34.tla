------------------------------- MODULE MC_P34 -------------------------------
(* Two traces of events 1 .. 3 (two of one identity) in a log, and a map:    *)
(* every change, with what an element answers.                               *)
EXTENDS Containers, McKit
CONSTANTS MaxOps
VARIABLES s, r, hist
vars == <<s, r, hist>>
view == <<s, Len(hist)>>
Traces == [x \in {11, 12} |-> IF x = 11 THEN "t1" ELSE "t2"]
Init == s = Void({"t1", "t2", "l1"}, {"m1"}, {}, <<1, 1, 2>>, Traces) /\ r = <<>> /\ hist = <<>>
Members(slot) == IF slot = "l1" THEN {11, 12} ELSE 1 .. 3
Seqs == UNION {
  {[op |-> o, slot |-> t, x |-> x] : o \in {"append", "remove", "index"}, x \in Members(t)}
  \cup {[op |-> "insert", slot |-> t, i |-> i, x |-> x] : i \in {-1, 0, 1}, x \in Members(t)}
  \cup {[op |-> "set", slot |-> t, i |-> 0, x |-> x] : x \in Members(t)}
  \cup {[op |-> o, slot |-> t, i |-> i] : o \in {"pop", "del"}, i \in {0, -1}}
  \cup {[op |-> o, slot |-> t] : o \in {"reverse", "clear"}}
  \cup {[op |-> "sort", slot |-> t, key |-> [x \in Members(t) |-> (x * 2) % 3]]} : t \in {"t1", "t2", "l1"}}
Maps == {[op |-> "put", slot |-> "m1", k |-> k, x |-> x] : k \in {"a", "b"}, x \in {21, 22}}
        \cup {[op |-> o, slot |-> "m1", k |-> k] : o \in {"drop", "take"}, k \in {"a", "b"}}
Others == {[op |-> "identity", x |-> 3, n |-> 1]}
Do(e) == /\ Len(hist) < MaxOps
         /\ LET n == Eff(s, e) IN s' = n.st /\ r' = n.r
         /\ hist' = Append(hist, e)
         /\ Emit(hist')
Next == \E e \in Seqs \cup Maps \cup Others : Do(e)
Last == hist'[Len(hist')]
Count(q, x) == Cardinality({p \in 1 .. Len(q) : q[p] = x})
\* what another place holds does not change
Elsewhere == [][\A t \in DOMAIN s.seq : (Last.op = "identity" \/ Last.slot # t) => s'.seq[t] = s.seq[t]]_vars
\* putting in adds exactly that, taking out takes exactly one
InOut == [][LET e == Last IN
  /\ e.op \in {"append", "insert"} => \A y \in Members(e.slot) : Count(s'.seq[e.slot], y) = Count(s.seq[e.slot], y) + (IF y = e.x THEN 1 ELSE 0)
  /\ e.op \in {"pop", "del", "remove"} /\ r' # <<"error">> => Len(s'.seq[e.slot]) = Len(s.seq[e.slot]) - 1
  /\ e.op \in {"reverse", "sort"} => \A y \in Members(e.slot) : Count(s'.seq[e.slot], y) = Count(s.seq[e.slot], y)
  /\ r' = <<"error">> => s' = s]_vars
Laws == \A t \in DOMAIN s.seq : LET q == s.seq[t] IN
  /\ Reversed(Reversed(q)) = q
  /\ Slice(q, 0, Len(q)) = q
  /\ \A x \in Members(t) : Equal(s, x, x) /\ (\A y \in Members(t) : Equal(s, x, y) = Equal(s, y, x))
  /\ \A x \in Members(t) : InsertAt(q, Len(q), x) = Append(q, x)
=============================================================================
