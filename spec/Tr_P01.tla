------------------------------- MODULE Tr_P01 -------------------------------
EXTENDS TraceKit, XesDoc
TInit(case) == 0
TStep(case, s, e) ==
  IF e.err # "" THEN Res(s, {"fails"})
  ELSE Res(s, Clause("one_log", e.n = 1)
              \cup (IF e.n = 1 THEN Diff(MilliLog(CanonLog(e.before)), MilliLog(CanonLog(e.after))) ELSE {}))
=============================================================================
