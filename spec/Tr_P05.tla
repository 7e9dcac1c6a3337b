------------------------------- MODULE Tr_P05 -------------------------------
EXTENDS TraceKit, MxmlDoc
TInit(case) == Reader0
TStep(case, s, e) ==
  IF e.op \in {"start", "chars", "end"} THEN Ok(MxEff(s, e))
  ELSE IF e.err # "" THEN Res(s, {"fails"})
  ELSE Res(s, IF Len(e.logs) # Len(s.logs) THEN {"logs"}
              ELSE UNION {Standard(e.logs[i]) \cup MxDiff(s.logs[i], e.logs[i]) : i \in 1 .. Len(s.logs)})
=============================================================================
