------------------------------- MODULE Tr_P22 -------------------------------
(* st.r: the registries; st.s: the singletons obtained so far.  A registry   *)
(* that comes with instances begins with what it shows then.                 *)
EXTENDS TraceKit, Registry
TInit(case) == [r |-> <<>>, s |-> [x \in {} |-> 0]]
Look(t, e) == UNION {Show(t.r[i], e.shown[i]) : i \in 1 .. Len(t.r)}
TStep(case, t, e) ==
  CASE e.op = "vacant" -> LET n == [t EXCEPT !.r = Append(@, Vacant)] IN Res(n, Look(n, e))
    [] e.op = "begin" -> LET o == e.shown[Len(e.shown)]
                             n == [t EXCEPT !.r = Append(@, [in |-> {o.avail[i] : i \in 1 .. Len(o.avail)}, cur |-> o.cur])]
                         IN  Res(n, Look(n, e) \cup Clause("comes with a default", o.cur # 0))
    [] e.op = "register" -> LET n == [t EXCEPT !.r[e.n] = Register(@, e.i)] IN Res(n, Look(n, e))
    [] e.op = "default" -> LET n == [t EXCEPT !.r[e.n] = SetDefault(@, e.i)] IN Res(n, Look(n, e))
    [] e.op = "obtain" -> LET o == Obtain(t.s, e.name, e.obj) IN Res([t EXCEPT !.s = o.st], Clause("singleton", o.ok) \cup Clause("class", e.class = e.name))
=============================================================================
