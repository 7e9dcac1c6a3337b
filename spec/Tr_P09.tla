------------------------------- MODULE Tr_P09 -------------------------------
(* case.ref: what a fresh process makes of each document (fail or a digest). *)
EXTENDS TraceKit, Parsing
TInit(case) == World0({"x1", "x2", "m1", "m2", "x3", "m3"})
\* every result still in the state it was left in
Kept(case, s, e) == /\ Len(e.all) = Len(s.res)
                    /\ \A i \in 1 .. Len(s.res) : s.res[i].ver = 0 => e.all[i] = case.ref[s.res[i].doc]
Still(e) == \A i \in 1 .. Len(e.moved) : ~e.moved[i]     \* trashed results not touched either
After(case, s, t, e) ==
  Clause("same", Kept(case, t, e)) \cup Clause("shared", e.shared = 0) \cup Clause("touched", Still(e))
One(s, d, out) == IF out = "fail" THEN s ELSE ParseEff(s, d)
TStep(case, s, e) ==
  CASE e.op = "build" -> Ok(BuildEff(s, e.p, e.own))
    [] e.op = "default" -> Ok(DefaultEff(s, e.f))
    [] e.op = "trash" -> LET t == TrashEff(s, e.r) IN Res(t, After(case, s, t, e))
    [] e.op = "parse" ->
         LET t == One(s, e.d, e.out)
         IN  Res(t, Clause("outcome", e.out = case.ref[e.d])
                    \cup Clause("factory", e.out = "fail" \/ \E f \in Makers(s, e.p) : {e.by[i] : i \in 1 .. Len(e.by)} \subseteq {f})
                    \cup After(case, s, t, e))
=============================================================================
