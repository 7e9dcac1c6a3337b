------------------------------- MODULE Tr_P25 -------------------------------
(* case.cs: the contents; case.defs: the names of definition files directly  *)
(* in the cache folder.  Each event shows all files (cache folder, support   *)
(* folder, home; content number, stale) and all registrations.               *)
EXTENDS TraceKit, Cache
TInit(case) == [f |-> [x \in {} |-> 0], r |-> <<>>]
Defs(case) == {case.defs[i] : i \in 1 .. Len(case.defs)}
Files(e) == [n \in {e.files[i][1] : i \in 1 .. Len(e.files)} |->
               LET i == CHOOSE j \in 1 .. Len(e.files) : e.files[j][1] = n IN [c |-> e.files[i][2], stale |-> e.files[i][3] = 1]]
Looks(e) == Clause("lookup by uri", \A i \in 1 .. Len(e.by) : LET S == {j \in 1 .. Len(e.regs) : e.regs[j].uri = e.by[i][1]}
                                                             IN  e.by[i][2] = IF S = {} THEN 0 ELSE e.regs[CHOOSE j \in S : TRUE].obj)
Same(n, e) == Clause("files", Files(e) = n.f) \cup Clause("registrations", e.regs = n.r) \cup Looks(e)
TStep(case, s, e) ==
  CASE e.op = "begin" -> Res([f |-> Files(e), r |-> e.regs], Looks(e) \cup Clause("cache folder at home", e.inside))
    [] e.op = "lay" -> LET n == [s EXCEPT !.f = Put(@, e.n, e.c, e.stale)] IN Res(n, Same(n, e))
    [] e.op = "reg" -> LET n == [s EXCEPT !.r = Register(@, e.x)] IN Res(n, Same(n, e))
    [] e.op = "fetch" -> LET n == [s EXCEPT !.f = Download(@, FileOf(e.segs, e.suffixed), e.c, e.ok)] IN Res(n, Same(n, e))
    [] e.op = "load" -> LET n == [f |-> Drop(s.f, Old(s.f, Defs(case))), r |-> e.regs]
                        IN  Res(n, Loaded(s.r, s.f, Defs(case), case.cs, e.regs) \cup Clause("files", Files(e) = n.f) \cup Looks(e))
=============================================================================
