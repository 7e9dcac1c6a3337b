------------------------------- MODULE Tr_P02 -------------------------------
(* Each case is one document: its element starts and ends in order, then     *)
(* what the real reader made of it.                                          *)
EXTENDS TraceKit, XesDoc
TInit(case) == Reader0
TStep(case, s, e) ==
  IF e.op \in {"start", "end"} THEN Ok(ReadEff(s, e))
  ELSE IF e.err # "" THEN Res(s, {"fails"})
  ELSE Res(s, Clause("one_log", e.n = 1)
              \cup (IF e.n = 1 THEN Diff(LogOf(s), CanonLog(e.log)) \cup Clause("features", s.ft = e.ft) ELSE {}))
=============================================================================
