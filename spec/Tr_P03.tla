------------------------------- MODULE Tr_P03 -------------------------------
(* Two logs, changed and written.  An event carries the log before and after *)
(* the write and the element starts and ends of the document.  The reader    *)
(* machine takes the document; it must give the log back, from exactly as    *)
(* many elements of each kind as the log has pieces.                         *)
EXTENDS TraceKit, XesDoc, Tokens
TInit(case) == [seen |-> {}]
Known == AttrTags \cup {"log", "trace", "event", "global", "extension", "classifier"}
RECURSIVE SizeA(_, _), SizeM(_, _, _)
\* the number of attributes of type t
SizeM(f, D, t) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN SizeA(f[x], t) + SizeM(f, D \ {x}, t)
SizeA(a, t) == (IF a.t = t THEN 1 ELSE 0) + SizeM(a.m, DOMAIN a.m, t) + SizeM(a.c, DOMAIN a.c, t)
RECURSIVE SizeE(_, _, _), SizeT(_, _, _)
SizeE(es, i, t) == IF i > Len(es) THEN 0 ELSE SizeM(es[i].m, DOMAIN es[i].m, t) + SizeE(es, i + 1, t)
SizeT(ts, i, t) == IF i > Len(ts) THEN 0 ELSE SizeM(ts[i].m, DOMAIN ts[i].m, t) + SizeE(ts[i].ev, 1, t) + SizeT(ts, i + 1, t)
Size(x, t) == SizeM(x.m, DOMAIN x.m, t) + SizeM(x.gt, DOMAIN x.gt, t) + SizeM(x.ge, DOMAIN x.ge, t) + SizeT(x.tr, 1, t)
RECURSIVE Events(_, _)
Events(ts, i) == IF i > Len(ts) THEN 0 ELSE Len(ts[i].ev) + Events(ts, i + 1)
N(d, tag) == Cardinality({i \in 1 .. Len(d) : d[i].op = "start" /\ d[i].tag = tag})
\* keys of classifier elements in their text form
Keyed(d) == [i \in 1 .. Len(d) |-> IF d[i].op = "start" /\ d[i].tag = "classifier" THEN [d[i] EXCEPT !.keys = TokensOf(@)] ELSE d[i]]
Attached(d) == \* the scope of each global is one of the two
  \A i \in 1 .. Len(d) : d[i].op = "start" /\ d[i].tag = "global" => d[i].scope \in {"trace", "event"}
WriteBad(s, e) ==
  IF ~e.well THEN {"well_formed"}
  ELSE IF ~(\A i \in 1 .. Len(e.doc) : e.doc[i].tag \in Known) THEN {"standard_tags"}
  ELSE IF ~(Len(e.doc) > 0 /\ e.doc[1].tag = "log" /\ N(e.doc, "log") = 1) THEN {"root"}
  ELSE LET g == CanonLog(e.before)
           d == Keyed(e.doc)
           got == ReadAll(Reader0, d, 1)
       IN  Clause("version", "xes.version" \in DOMAIN e.doc[1].ft /\ e.doc[1].ft["xes.version"] # "s")
           \cup Clause("read_only", e.before = e.after)
           \cup Clause("scope", Attached(d))
           \cup Clause("extension_elements", e.exwant = e.exgot)
           \cup Clause("once", /\ \A t \in DOMAIN TagOfType : N(d, TagOfType[t]) = Size(g, t)
                               /\ N(d, "trace") = Len(g.tr) /\ N(d, "event") = Events(g.tr, 1)
                               /\ N(d, "classifier") = Len(g.cl)
                               /\ N(d, "global") \in (IF g.gt = <<>> THEN 0 ELSE 1) + (IF g.ge = <<>> THEN 0 ELSE 1) .. 2)
           \cup Diff(MilliLog([g EXCEPT !.ex = {}]), MilliLog([LogOf(got) EXCEPT !.ex = {}]))
           \cup Clause("same_again", \A x \in s.seen : x[1] = e.l /\ x[2] = e.ver => x[3] = e.digest)
TStep(case, s, e) ==
  IF e.op = "mut" THEN Ok(s)
  ELSE IF e.err # "" THEN Res(s, {"fails"})
  ELSE Res([s EXCEPT !.seen = @ \cup {<<e.l, e.ver, e.digest>>}], WriteBad(s, e))
=============================================================================
