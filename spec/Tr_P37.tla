------------------------------- MODULE Tr_P37 -------------------------------
(* read: e.at: bytes the source delivered, e.end: where the document is      *)
(* complete, e.failed: the source failed, e.sound: what it delivered is      *)
(* undamaged; e.out and, of a log, e.same: it is the whole one, once.        *)
(* write: e.failed: the sink failed; e.same: a finished document is the      *)
(* whole one.  e.log: the log written is as before.                          *)
EXTENDS TraceKit, Streams
TInit(case) == <<>>
TStep(case, s, e) ==
  CASE e.op = "read" -> Res(s, Clause("outcome", e.out \in IF e.sound THEN ReadOut(e.at, e.end, e.failed) ELSE {"error"})
                               \cup Clause("whole log", e.out = "log" => e.same))
    [] e.op = "write" -> Res(s, Clause("outcome", e.out \in WriteOut(e.failed)) \cup Clause("whole document", e.out = "done" => e.same)
                                \cup Clause("log untouched", e.log))
=============================================================================
