------------------------------- MODULE Tr_P36 -------------------------------
(* case.os, case.home: the platform and the home folder; case.dirs: the      *)
(* folders there are at first.  e.got: the path answered; e.dirs, e.files:   *)
(* what there is after the step; e.ask: what the platform is said to be.     *)
EXTENDS TraceKit, Platform
TInit(case) == [dirs |-> {case.dirs[i] : i \in 1 .. Len(case.dirs)}, files |-> [p \in {} |-> ""]]
Shown(s, e) == Clause("folders", {e.dirs[i] : i \in 1 .. Len(e.dirs)} = s.dirs)
               \cup Clause("files", DOMAIN e.files = DOMAIN s.files /\ \A p \in DOMAIN s.files : e.files[p] = s.files[p])
TStep(case, s, e) ==
  CASE e.op = "support" -> LET n == SupportEff(s, case.os, case.home) IN Res(n, Clause("support folder", e.got = Support(case.os, case.home) \o Sep(case.os)) \cup Shown(n, e))
    [] e.op = "cache" -> LET n == CacheEff(s, case.os, case.home) IN Res(n, Clause("cache folder", e.got = Cache(case.os, case.home)) \cup Shown(n, e))
    [] e.op = "write" -> LET n == WriteEff(s, e.p, e.v) IN Res(n, Shown(n, e))
    [] e.op = "delete" -> LET n == DeleteEff(s, e.p) IN Res(n, Shown(n, e))
    [] e.op = "ask" -> Res(s, Clause("platform", e.ask.os = case.os) \cup Clause("windows", e.ask.windows = Windows(case.os)) \cup Clause("mac", e.ask.mac = Mac(case.os))
                              \cup Clause("linux", e.ask.linux = Linux(case.os)) \cup Clause("unix", Known(case.os) => e.ask.unix = Unix(case.os)) \cup Shown(s, e))
=============================================================================
