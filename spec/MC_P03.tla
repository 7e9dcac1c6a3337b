------------------------------- MODULE MC_P03 -------------------------------
(* Two logs changed and written in any order by two writers.  What a write   *)
(* yields is a function of the log alone, and it names every piece of the    *)
(* log once.                                                                 *)
EXTENDS XesDoc, McKit
CONSTANTS MaxOps
VARIABLES g, docs, hist
view == <<g, docs, Len(hist)>>
Logs == {1, 2}
Writers == {1, 2}
Muts == {"attr", "nest", "trace", "event", "class", "ext", "global", "list", "drop"}
Empty == [m |-> NoMap, tr |-> <<>>, gt |-> <<>>, ge |-> <<>>, cl |-> <<>>, ex |-> {}]
A(k, t, v) == [NoAttr EXCEPT !.k = k, !.t = t, !.v = v]
Child == A("c", "discrete", "i1")
Mutate(x, m) ==
  CASE m = "attr"   -> [x EXCEPT !.m = Put(@, "a", A("a", "literal", "sx"))]
    [] m = "nest"   -> [x EXCEPT !.m = Put(@, "n", [A("n", "boolean", "btrue") EXCEPT !.m = Put(NoMap, "c", Child)])]
    [] m = "list"   -> [x EXCEPT !.m = Put(@, "l", [A("l", "list", "") EXCEPT !.c = <<Child, Child>>])]
    [] m = "trace"  -> [x EXCEPT !.tr = Append(@, [m |-> NoMap, ev |-> <<>>])]
    [] m = "event"  -> IF x.tr = <<>> THEN x ELSE [x EXCEPT !.tr[Len(x.tr)].ev = Append(@, [m |-> Put(NoMap, "c", Child)])]
    [] m = "class"  -> [x EXCEPT !.cl = Append(@, <<"c", <<"a", "b c">>>>)]
    [] m = "ext"    -> [x EXCEPT !.ex = @ \cup {"time"}]
    [] m = "global" -> [x EXCEPT !.ge = Append(@, Child)]
    [] OTHER        -> IF x.tr = <<>> THEN [x EXCEPT !.m = NoMap] ELSE [x EXCEPT !.tr = SubSeq(@, 1, Len(@) - 1)]
Init == g = [l \in Logs |-> Empty] /\ docs = {} /\ hist = <<>>
Change == \E l \in Logs, m \in Muts : /\ g' = [g EXCEPT ![l] = Mutate(@, m)] /\ docs' = docs
                                      /\ hist' = Append(hist, <<"mut", l, m>>)
Write == \E l \in Logs, w \in Writers : /\ UNCHANGED g /\ docs' = docs \cup {<<g[l], DocLog(g[l])>>}
                                        /\ hist' = Append(hist, <<"write", l, ToString(w)>>)
Next == /\ Len(hist) < MaxOps /\ (Change \/ Write)
        /\ IF Len(hist') = MaxOps /\ docs' # {} THEN Emit(hist') ELSE TRUE
Function == \A x, y \in docs : x[1] = y[1] => x[2] = y[2]
RECURSIVE SizeA(_), SizeM(_, _)
SizeM(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN SizeA(f[x]) + SizeM(f, D \ {x})
SizeA(a) == 1 + SizeM(a.m, DOMAIN a.m) + SizeM(a.c, DOMAIN a.c)
RECURSIVE SizeE(_, _), SizeT(_, _)
SizeE(es, i) == IF i > Len(es) THEN 0 ELSE SizeM(es[i].m, DOMAIN es[i].m) + SizeE(es, i + 1)
SizeT(ts, i) == IF i > Len(ts) THEN 0 ELSE SizeM(ts[i].m, DOMAIN ts[i].m) + SizeE(ts[i].ev, 1) + SizeT(ts, i + 1)
Size(x) == SizeM(x.m, DOMAIN x.m) + SizeM(x.gt, DOMAIN x.gt) + SizeM(x.ge, DOMAIN x.ge) + SizeT(x.tr, 1)
N(d, T) == Cardinality({i \in 1 .. Len(d) : d[i].op = "start" /\ d[i].tag \in T})
Complete == \A x \in docs : N(x[2], AttrTags) = Size(x[1]) /\ N(x[2], {"trace"}) = Len(x[1].tr)
                            /\ N(x[2], {"extension"}) = Cardinality(x[1].ex) /\ N(x[2], {"classifier"}) = Len(x[1].cl)
Faithful == \A x \in docs : LogOf(ReadAll(Reader0, x[2], 1)) = x[1]
=============================================================================
