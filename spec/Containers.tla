----------------------------- MODULE Containers -----------------------------
(* P34: what logs, traces, attribute maps, lists and containers hold.        *)
(* seq: slot -> members in order (a trace's events, a log's traces,          *)
(* classifiers and globals, a collection's children); map: slot -> key ->    *)
(* member; set: slot -> members; id: the events' identities.  Members are    *)
(* numbers; traces are also slots: tr maps a member to its slot.  Positions  *)
(* are counted from 0, from the end when negative.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Clauses
Void(seqs, maps, sets, ids, tr) ==
  [seq |-> [x \in seqs |-> <<>>], map |-> [x \in maps |-> [k \in {} |-> 0]], set |-> [x \in sets |-> {}], id |-> ids, tr |-> tr]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
\* the place an insertion at i has, the member i names
Gap(n, i) == IF i < 0 THEN Max(0, n + i) ELSE Min(i, n)
Valid(n, i) == -n <= i /\ i < n
Pos(n, i) == IF i < 0 THEN n + i + 1 ELSE i + 1
InsertAt(q, i, x) == LET g == Gap(Len(q), i) IN SubSeq(q, 1, g) \o <<x>> \o SubSeq(q, g + 1, Len(q))
DropPos(q, p) == SubSeq(q, 1, p - 1) \o SubSeq(q, p + 1, Len(q))
Reversed(q) == [i \in 1 .. Len(q) |-> q[Len(q) + 1 - i]]
Slice(q, i, j) == LET g == Gap(Len(q), i) IN SubSeq(q, g + 1, Max(g, Gap(Len(q), j)))
\* stable sort by key
RECURSIVE Into(_, _, _)
Into(q, x, key) == IF q = <<>> \/ key[q[Len(q)]] <= key[x] THEN Append(q, x) ELSE Append(Into(SubSeq(q, 1, Len(q) - 1), x, key), q[Len(q)])
RECURSIVE Sorted(_, _)
Sorted(q, key) == IF q = <<>> THEN <<>> ELSE Into(Sorted(SubSeq(q, 1, Len(q) - 1), key), q[Len(q)], key)
\* when two members count as equal: the same, events of one identity, traces of equal events
Ids(s, x) == LET q == s.seq[s.tr[x]] IN [i \in 1 .. Len(q) |-> s.id[q[i]]]
Equal(s, x, y) == \/ x = y
                  \/ x \in DOMAIN s.id /\ y \in DOMAIN s.id /\ s.id[x] = s.id[y]
                  \/ x \in DOMAIN s.tr /\ y \in DOMAIN s.tr /\ Ids(s, x) = Ids(s, y)
Where(s, q, x) == {p \in 1 .. Len(q) : Equal(s, q[p], x)}
First(s, q, x) == LET w == Where(s, q, x) IN CHOOSE p \in w : \A r \in w : p <= r
\* answers are texts
Say(q) == [i \in 1 .. Len(q) |-> ToString(q[i])]
Same(s) == [st |-> s, r |-> <<>>]
Fails(s) == [st |-> s, r |-> <<"error">>]
Hold(s, slot, q) == [st |-> [s EXCEPT !.seq[slot] = q], r |-> <<>>]
\* r: the answer
SeqEff(s, e) ==
  LET q == s.seq[e.slot]
      n == Len(q)
  IN  CASE e.op = "append" -> Hold(s, e.slot, Append(q, e.x))
        [] e.op = "insert" -> Hold(s, e.slot, InsertAt(q, e.i, e.x))
        [] e.op = "extend" -> Hold(s, e.slot, q \o e.xs)
        [] e.op = "pop" -> IF Valid(n, e.i) THEN [Hold(s, e.slot, DropPos(q, Pos(n, e.i))) EXCEPT !.r = Say(<<q[Pos(n, e.i)]>>)] ELSE Fails(s)
        [] e.op = "del" -> IF Valid(n, e.i) THEN Hold(s, e.slot, DropPos(q, Pos(n, e.i))) ELSE Fails(s)
        [] e.op = "set" -> IF Valid(n, e.i) THEN Hold(s, e.slot, [q EXCEPT ![Pos(n, e.i)] = e.x]) ELSE Fails(s)
        [] e.op = "remove" -> IF Where(s, q, e.x) # {} THEN Hold(s, e.slot, DropPos(q, First(s, q, e.x))) ELSE Fails(s)
        [] e.op = "reverse" -> Hold(s, e.slot, Reversed(q))
        [] e.op = "clear" -> Hold(s, e.slot, <<>>)
        [] e.op = "sort" -> Hold(s, e.slot, Sorted(q, e.key))
        [] e.op = "get" -> IF Valid(n, e.i) THEN [Same(s) EXCEPT !.r = Say(<<q[Pos(n, e.i)]>>)] ELSE Fails(s)
        [] e.op = "slice" -> [Same(s) EXCEPT !.r = Say(Slice(q, e.i, e.j))]
        [] e.op = "count" -> [Same(s) EXCEPT !.r = Say(<<Cardinality(Where(s, q, e.x))>>)]
        [] e.op = "index" -> IF Where(s, q, e.x) # {} THEN [Same(s) EXCEPT !.r = Say(<<First(s, q, e.x) - 1>>)] ELSE Fails(s)
        [] e.op = "has" -> [Same(s) EXCEPT !.r = Say(<<IF Where(s, q, e.x) # {} THEN 1 ELSE 0>>)]
        [] e.op = "equal" -> LET o == s.seq[e.other]
                             IN  [Same(s) EXCEPT !.r = Say(<<IF Len(o) = n /\ \A i \in 1 .. n : Equal(s, q[i], o[i]) THEN 1 ELSE 0>>)]
Over(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
Without(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]
Keep(s, slot, f) == [st |-> [s EXCEPT !.map[slot] = f], r |-> <<>>]
MapEff(s, e) ==
  LET f == s.map[e.slot]
  IN  CASE e.op = "put" -> Keep(s, e.slot, Over(f, [k \in {e.k} |-> e.x]))
        [] e.op = "drop" -> IF e.k \in DOMAIN f THEN Keep(s, e.slot, Without(f, e.k)) ELSE Fails(s)
        [] e.op = "take" -> IF e.k \in DOMAIN f THEN [Keep(s, e.slot, Without(f, e.k)) EXCEPT !.r = Say(<<f[e.k]>>)] ELSE Fails(s)
        [] e.op = "update" -> Keep(s, e.slot, Over(f, e.m))
        [] e.op = "empty" -> Keep(s, e.slot, [k \in {} |-> 0])
        [] e.op = "replace" -> Keep(s, e.slot, e.m)
        [] e.op = "lookup" -> IF e.k \in DOMAIN f THEN [Same(s) EXCEPT !.r = Say(<<f[e.k]>>)] ELSE [Same(s) EXCEPT !.r = <<"N">>]
        [] e.op = "default" -> IF e.k \in DOMAIN f THEN [Same(s) EXCEPT !.r = Say(<<f[e.k]>>)] ELSE [Keep(s, e.slot, Over(f, [k \in {e.k} |-> e.x])) EXCEPT !.r = Say(<<e.x>>)]
SetEff(s, e) ==
  LET f == s.set[e.slot]
  IN  CASE e.op = "add" -> [Same(s) EXCEPT !.st.set[e.slot] = f \cup {e.x}]
        [] e.op = "discard" -> [Same(s) EXCEPT !.st.set[e.slot] = f \ {e.x}]
IdEff(s, e) == [Same(s) EXCEPT !.st.id[e.x] = e.n]
Eff(s, e) == CASE e.op = "identity" -> IdEff(s, e)
               [] e.op \in {"put", "drop", "take", "update", "empty", "replace", "lookup", "default"} -> MapEff(s, e)
               [] e.op \in {"add", "discard"} -> SetEff(s, e)
               [] OTHER -> SeqEff(s, e)
=============================================================================
