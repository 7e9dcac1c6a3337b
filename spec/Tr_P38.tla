------------------------------- MODULE Tr_P38 -------------------------------
(* e.s: the contents of the log, as a digest; look: e.q the question, e.a    *)
(* the answer given, e.fresh that of a log rebuilt from the contents,        *)
(* e.kept: nothing the log holds has changed by asking.                      *)
EXTENDS TraceKit, Looking
TInit(case) == NoMemo
TStep(case, memo, e) ==
  CASE e.op = "look" -> Res(Learn(memo, e.s, e.q, e.a),
                            Clause("looking changes nothing", e.kept) \cup Clause("same answer", Possible(memo, e.s, e.q, e.a))
                            \cup Clause("depends on contents", e.fresh = e.a))
    [] e.op = "edit" -> Ok(memo)
=============================================================================
