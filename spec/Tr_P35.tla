------------------------------- MODULE Tr_P35 -------------------------------
(* case.how: what the case looks at.  st.a: the attribute; st.maps, st.free: *)
(* the global mappings and one apart, key -> alias; st.b: the dates that     *)
(* were registered; st.n: the name.                                          *)
EXTENDS TraceKit, Texts
TInit(case) == [a |-> 0, maps |-> [n \in {} |-> 0], free |-> [k \in {} |-> ""], b |-> <<>>, n |-> ""]
Tree(s, e) == Clause("text", Says(s.a, e.o)) \cup Clause("copy's text", e.copy = e.o.text)
Maps(s, e) == Clause("a mapping's text", \A n \in DOMAIN s.maps : MapLines(n, s.maps[n], e.each[n]))
              \cup Clause("each mapping", DOMAIN e.each = DOMAIN s.maps)
              \cup Clause("mapping apart", MapLines(e.freename, s.free, e.free))
              \cup Clause("global text", GlobalLines(s.maps, e.all))
Add(f, n) == IF n \in DOMAIN f THEN f ELSE Set2(f, n, [k \in {} |-> ""])
TStep(case, s, e) ==
  CASE e.op = "tree" -> LET n == [s EXCEPT !.a = e.a] IN Res(n, Tree(n, e))
    [] e.op = "set" -> LET n == [s EXCEPT !.a = SetAt(@, e.path, e.a)] IN Res(n, Tree(n, e))
    [] e.op = "add" -> LET n == [s EXCEPT !.a = AddAt(@, e.path, e.a)] IN Res(n, Tree(n, e))
    [] e.op = "nest" -> Res(s, Tree(s, e))
    [] e.op = "maps" -> LET n == [s EXCEPT !.maps = e.m] IN Res(n, Maps(n, e))
    [] e.op = "alias" -> LET m == Add(s.maps, e.n)
                             n == [s EXCEPT !.maps = [m EXCEPT ![e.n] = Set2(@, e.k, e.v)]]
                         IN  Res(n, Maps(n, e))
    [] e.op = "mapping" -> LET n == [s EXCEPT !.maps = Add(@, e.n)] IN Res(n, Maps(n, e))
    [] e.op = "apart" -> LET n == [s EXCEPT !.free = Set2(@, e.k, e.v)] IN Res(n, Maps(n, e))
    [] e.op = "bounds" -> LET n == [s EXCEPT !.b = IF e.d = <<>> THEN @ ELSE Append(@, e.d)]
                              all == {n.b[i] : i \in 1 .. Len(n.b)}
                          IN  Res(n, Clause("bounds' text",
                                IF all = {} THEN e.text = BoundsText(<<>>, <<>>)
                                ELSE \E f, z \in all : /\ e.text = BoundsText(f, z)
                                                       /\ \A d \in all : ~InstantLess(InstantOf(d), InstantOf(f)) /\ ~InstantLess(InstantOf(z), InstantOf(d))))
    [] e.op = "name" -> Res([s EXCEPT !.n = e.n], Clause("name's text", e.text = e.n) \cup Clause("classes' text", e.classes = "" \/ e.classes = ClassesText(e.n)))
    [] e.op = "id" -> Res(s, Clause("identity's text", e.text = UpperText(e.v)) \cup Clause("attribute's text", e.held = UpperText(e.v)))
=============================================================================
