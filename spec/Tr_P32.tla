------------------------------- MODULE Tr_P32 -------------------------------
(* case.then: <<listener, next>>, for the switching ones.  log: e.got: what    *)
(* the listeners were told, in order, <<listener, text, importance>>;        *)
(* e.out: how often the text, and with it the importance, was printed.       *)
(* work: e.dig: what a library operation did, one digest per listener in     *)
(* force.                                                                    *)
EXTENDS TraceKit, Logging
TInit(case) == <<>>
Then(case) == [x \in {case.then[i][1] : i \in 1 .. Len(case.then)} |-> case.then[CHOOSE i \in 1 .. Len(case.then) : case.then[i][1] = x][2]]
TStep(case, s, e) ==
  CASE e.op = "new" -> Res(New(s), {})
    [] e.op = "set" -> Res(SetTo(s, e.i, e.to), Clause("nothing told", e.got = <<>> /\ e.printed = ""))
    [] e.op = "log" ->
         LET h == Hears(s, e.i)
             told == h # <<>> /\ h[1] # Default
         IN  Res(After(s, e.i, Then(case)),
                 Clause("told", e.got = IF told THEN <<<<h[1], e.text, Weight(e.imp)>>>> ELSE <<>>)
                 \cup Clause("printed", IF h = <<Default>> THEN e.out = <<1, 1>> ELSE e.printed = ""))
    [] e.op = "work" -> Res(s, Clause("same result", \A i, j \in 1 .. Len(e.dig) : e.dig[i] = e.dig[j]) \cup Clause("works", \A i \in 1 .. Len(e.dig) : e.dig[i] # "failed"))
=============================================================================
