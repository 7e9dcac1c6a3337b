------------------------------- MODULE Tr_P39 -------------------------------
(* alone: e.job gives e.a by itself.  done: in a thread e.job gave e.a.      *)
(* single: e.ids: the instances of one class that the threads got and the    *)
(* one there is afterwards.  fresh: e.ids: identities given out.  end: all   *)
(* threads came to their end.                                                *)
EXTENDS TraceKit, Threads
TInit(case) == [j \in {} |-> ""]
TStep(case, s, e) ==
  CASE e.op = "alone" -> Res([j \in DOMAIN s \cup {e.job} |-> IF j = e.job THEN e.a ELSE s[j]], Clause("repeatable", e.job \in DOMAIN s => s[e.job] = e.a))
    [] e.op = "done" -> Res(s, Clause("undisturbed", Undisturbed(s, e.job, e.a)))
    [] e.op = "single" -> Res(s, Clause("one instance", Single(e.ids)))
    [] e.op = "fresh" -> Res(s, Clause("unique", Distinct(e.ids)))
    [] e.op = "end" -> Res(s, Clause("comes to an end", e.all))
=============================================================================
