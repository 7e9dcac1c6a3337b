------------------------------- MODULE Tr_P21 -------------------------------
(* Summaries are numbered in the order in which they appeared.  e.got: the   *)
(* one returned; e.cache: what each log has for each classifier there is;    *)
(* e.made: the log and classifier each summary says it was built for.        *)
EXTENDS TraceKit, InfoCache
TInit(case) == Start
\* e.cache[x]: <<classifier, number of the summary found>>, ...
Cached(s, e) == Clause("cache", \A x \in 1 .. Len(s.log) : \A j \in 1 .. Len(e.cache[x]) : e.cache[x][j][2] = Peek(s, x, e.cache[x][j][1]))
                \cup Clause("built for", e.made = s.made)
TStep(case, s, e) ==
  CASE e.op = "log" -> LET n == NewLog(s) IN Res(n, Cached(n, e))
    [] e.op = "ask" -> LET a == Asked(s, e.l, e.c) IN Res(a.st, Clause("summary", e.got = a.info) \cup Cached(a.st, e))
    [] e.op = "make" -> LET n == Built(s, e.l, e.c) IN Res(n, Cached(n, e))
    [] e.op = "set" -> LET n == SetInfo(s, e.l, e.c, e.i) IN Res(n, Cached(n, e))
=============================================================================
