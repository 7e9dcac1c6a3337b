------------------------------- MODULE Tr_P14 -------------------------------
EXTENDS TraceKit, Stamp
TInit(case) == [kind |-> "none", d |-> <<>>, at |-> <<>>]
Views(s, e) == Clause("value", ValueAgrees(s, e.value)) \cup Clause("millis", e.num /\ MillisAgree(s, e.millis) /\ (WholeMillis(s.at) => e.whole /\ e.millis = s.at)) \cup Clause("text", TextAgrees(s, e.text))
TStep(case, s, e) ==
  LET t == CASE e.op \in {"new", "set"} -> FromFields(e.a)
             [] e.op \in {"newms", "setms"} -> FromMillis(e.a)
             [] e.op \in {"look", "clone"} -> s
             \* its own milliseconds assigned again: the value, within their resolution
             [] e.op = "again" -> [s EXCEPT !.kind = "millis"]
  IN  IF e.op = "again"
      THEN Res([kind |-> "millis", d |-> <<>>, at |-> InstantOf(e.value)], Clause("again", Near(s.at, InstantOf(e.value), Tolerance(s.at))))
      ELSE Res(t, Views(t, e))
=============================================================================
