------------------------------- MODULE XesDoc -------------------------------
(* The XES document as a sequence of element starts and ends, the reader as  *)
(* a stack machine over them, and the writer as the sequence a log makes.    *)
(*                                                                           *)
(* An attribute is [k, t, v, d, x, m, c]: key, type, tagged value, date      *)
(* fields, extension prefix, nested attributes by key, children in order.    *)
(* A start event is [op |-> "start", tag, key, val, ...]: tag in lower case  *)
(* as the format names it, key ("N" when missing), den: the value the text   *)
(* denotes for the tag's type, text: the text of a date.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Temporal

TypeOfTag == [string |-> "literal", date |-> "timestamp", int |-> "discrete", float |-> "continuous",
              boolean |-> "boolean", id |-> "id", list |-> "list", container |-> "container"]
TagOfType == [literal |-> "string", timestamp |-> "date", discrete |-> "int", continuous |-> "float",
              boolean |-> "boolean", id |-> "id", list |-> "list", container |-> "container"]
AttrTags == DOMAIN TypeOfTag
Collections == {"list", "container"}
\* the root attributes that are features of the log
IsFeature(k) == (Len(k) >= 4 /\ SubSeq(k, 1, 4) = "xes.") \/ (Len(k) >= 8 /\ SubSeq(k, 1, 8) = "openxes.")

StdPrefixes == {"concept", "lifecycle", "org", "time", "semantic", "identity", "cost", "micro"}
\* further extensions the harness registers before anything is read
CustomPrefixes == {"cx1", "cx2", "cx3", "cx4", "cx5", "cx6", "cx7", "cx8", "cx9", "cx10", "cx11", "cx12", "Cx1", "c.x"}
KnownPrefixes == StdPrefixes \cup CustomPrefixes

NoMap == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NoAttr == [k |-> "", t |-> "", v |-> "", d |-> <<>>, x |-> "N", m |-> NoMap, c |-> <<>>]

\* the prefix a key names: what stands before its first colon
RECURSIVE PrefixLen(_, _)
PrefixLen(k, i) == IF i > Len(k) THEN -1 ELSE IF SubSeq(k, i, i) = ":" THEN i - 1 ELSE PrefixLen(k, i + 1)
ExtOf(k) == LET n == PrefixLen(k, 1)
            IN  IF n < 0 THEN "N" ELSE IF SubSeq(k, 1, n) \in KnownPrefixes THEN SubSeq(k, 1, n) ELSE "N"

-----------------------------------------------------------------------------
\* Reader

Frame(kind) == [kind |-> kind, a |-> NoAttr, m |-> NoMap, sub |-> <<>>]
Reader0 == [fr |-> <<>>, skip |-> 0, m |-> NoMap, tr |-> <<>>, gt |-> <<>>, ge |-> <<>>,
            cl |-> <<>>, ex |-> {}, ft |-> NoMap, done |-> FALSE]

Push(s, f) == [s EXCEPT !.fr = Append(@, f)]

StartAttr(s, e) ==
  IF s.skip > 0 THEN [s EXCEPT !.skip = @ + 1]
  ELSE IF e.tag = "date" /\ ~Denotes(e.text) THEN [s EXCEPT !.skip = 1]
  ELSE LET key == IF e.key = "N" THEN "UNKNOWN" ELSE SubSeq(e.key, 2, Len(e.key))
           a == [NoAttr EXCEPT !.k = key, !.t = TypeOfTag[e.tag], !.x = ExtOf(key),
                               !.v = IF e.tag \in Collections THEN "" ELSE IF e.tag = "date" THEN "d" ELSE e.den,
                               !.d = IF e.tag = "date" THEN InstantOf(FieldsOf(e.text)) ELSE <<>>]
       IN  Push(s, [Frame("attr") EXCEPT !.a = a])

ReadStart(s, e) ==
  CASE e.tag \in AttrTags -> StartAttr(s, e)
    [] e.tag = "log" -> [Push(s, Frame("log")) EXCEPT !.ft = [k \in {x \in DOMAIN e.ft : IsFeature(x)} |-> e.ft[k]]]
    [] e.tag \in {"trace", "event"} -> Push(s, Frame(e.tag))
    [] e.tag = "global" -> Push(s, Frame(IF e.scope = "trace" THEN "gt" ELSE "ge"))
    [] e.tag = "extension" -> [Push(s, Frame("plain")) EXCEPT !.ex = IF e.den \in KnownPrefixes THEN @ \cup {e.den} ELSE @]
    [] e.tag = "classifier" -> [Push(s, Frame("plain")) EXCEPT !.cl = IF e.name = "" \/ e.keys = <<>> THEN @
                                                                      ELSE Append(@, <<e.name, e.keys>>)]
    [] OTHER -> Push(s, Frame("plain"))

\* the nearest frame that is an element of the format
RECURSIVE Encl(_, _)
Encl(fr, i) == IF i = 0 THEN 0 ELSE IF fr[i].kind = "plain" THEN Encl(fr, i - 1) ELSE i

AttrOf(f) == IF f.a.t \in Collections THEN [f.a EXCEPT !.c = f.sub] ELSE [f.a EXCEPT !.m = f.m]

ReadEnd(s, e) ==
  IF e.tag \in AttrTags /\ s.skip > 0 THEN [s EXCEPT !.skip = @ - 1]
  ELSE
  LET n == Len(s.fr)
      f == s.fr[n]
      r == [s EXCEPT !.fr = SubSeq(@, 1, n - 1)]
      j == Encl(r.fr, n - 1)
      p == r.fr[j]
  IN CASE f.kind = "plain" -> r
       [] f.kind = "log"   -> [r EXCEPT !.m = f.m, !.tr = f.sub, !.done = TRUE]
       [] f.kind = "trace" -> [r EXCEPT !.fr[j].sub = Append(@, [m |-> f.m, ev |-> f.sub])]
       [] f.kind = "event" -> [r EXCEPT !.fr[j].sub = Append(@, [m |-> f.m])]
       [] f.kind \in {"gt", "ge"} -> r
       [] f.kind = "attr" ->
            CASE p.kind = "gt" -> [r EXCEPT !.gt = Append(@, AttrOf(f))]
              [] p.kind = "ge" -> [r EXCEPT !.ge = Append(@, AttrOf(f))]
              [] p.kind = "attr" /\ p.a.t \in Collections -> [r EXCEPT !.fr[j].sub = Append(@, AttrOf(f))]
              [] OTHER -> [r EXCEPT !.fr[j].m = Put(@, f.a.k, AttrOf(f))]

ReadEff(s, e) == IF e.op = "start" THEN ReadStart(s, e) ELSE ReadEnd(s, e)
RECURSIVE ReadAll(_, _, _)
ReadAll(s, es, i) == IF i > Len(es) THEN s ELSE ReadAll(ReadEff(s, es[i]), es, i + 1)

\* what the reader has made of the document
LogOf(s) == [m |-> s.m, tr |-> s.tr, gt |-> s.gt, ge |-> s.ge, cl |-> s.cl, ex |-> s.ex]

-----------------------------------------------------------------------------
\* Observed logs in the reader's terms: dates as instants

RECURSIVE Canon(_)
Canon(a) == [a EXCEPT !.d = IF a.t = "timestamp" THEN InstantOf(@) ELSE <<>>,
                      !.m = [k \in DOMAIN a.m |-> Canon(a.m[k])],
                      !.c = [i \in 1 .. Len(a.c) |-> Canon(a.c[i])]]
CanonMap(m) == [k \in DOMAIN m |-> Canon(m[k])]
CanonSeq(s) == [i \in 1 .. Len(s) |-> Canon(s[i])]
CanonTrace(t) == [m |-> CanonMap(t.m), ev |-> [j \in 1 .. Len(t.ev) |-> [m |-> CanonMap(t.ev[j].m)]]]
CanonLog(g) == [m |-> CanonMap(g.m), tr |-> [i \in 1 .. Len(g.tr) |-> CanonTrace(g.tr[i])],
                gt |-> CanonSeq(g.gt), ge |-> CanonSeq(g.ge), cl |-> g.cl,
                ex |-> {g.ex[i] : i \in 1 .. Len(g.ex)}]

\* dates cut to the millisecond; extensions of attributes left out (they
\* follow from the key when a document is read)
RECURSIVE Milli(_)
Milli(a) == [a EXCEPT !.d = IF a.t = "timestamp" THEN ToMilli(@) ELSE @, !.x = "N",
                      !.m = [k \in DOMAIN a.m |-> Milli(a.m[k])],
                      !.c = [i \in 1 .. Len(a.c) |-> Milli(a.c[i])]]
MilliMap(m) == [k \in DOMAIN m |-> Milli(m[k])]
MilliSeq(s) == [i \in 1 .. Len(s) |-> Milli(s[i])]
MilliLog(g) == [g EXCEPT !.m = MilliMap(@), !.gt = MilliSeq(@), !.ge = MilliSeq(@),
                         !.tr = [i \in 1 .. Len(g.tr) |->
                                   [m |-> MilliMap(g.tr[i].m),
                                    ev |-> [j \in 1 .. Len(g.tr[i].ev) |-> [m |-> MilliMap(g.tr[i].ev[j].m)]]]]]

\* clause names of the differences between two logs
Diff(a, b) ==
  (IF a.m = b.m THEN {} ELSE {"log_attributes"})
  \cup (IF a.gt = b.gt /\ a.ge = b.ge THEN {} ELSE {"globals"})
  \cup (IF a.cl = b.cl THEN {} ELSE {"classifiers"})
  \cup (IF a.ex = b.ex THEN {} ELSE {"extensions"})
  \cup (IF Len(a.tr) # Len(b.tr) THEN {"traces"}
        ELSE UNION {(IF a.tr[i].m = b.tr[i].m THEN {} ELSE {"trace_attributes"})
                    \cup (IF Len(a.tr[i].ev) # Len(b.tr[i].ev) THEN {"events"}
                          ELSE IF a.tr[i].ev = b.tr[i].ev THEN {} ELSE {"event_attributes"}) : i \in 1 .. Len(a.tr)})

-----------------------------------------------------------------------------
\* Writer: the element starts and ends of the document of a log

St(tag, a) == [op |-> "start", tag |-> tag, key |-> "s" \o a.k, den |-> a.v, text |-> "", inst |-> a.d]
En(tag) == [op |-> "end", tag |-> tag]
SetToSeq(S) == CHOOSE f \in [1 .. Cardinality(S) -> S] : \A i, j \in 1 .. Cardinality(S) : i # j => f[i] # f[j]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(SubSeq(ss, 2, Len(ss)))
RECURSIVE DocAttr(_)
DocAttr(a) == LET tag == TagOfType[a.t]
                  kids == IF a.t \in Collections THEN a.c
                          ELSE LET ks == SetToSeq(DOMAIN a.m) IN [i \in 1 .. Len(ks) |-> a.m[ks[i]]]
              IN  <<St(tag, a)>> \o Flat([i \in 1 .. Len(kids) |-> DocAttr(kids[i])]) \o <<En(tag)>>
DocMap(m) == LET ks == SetToSeq(DOMAIN m) IN Flat([i \in 1 .. Len(ks) |-> DocAttr(m[ks[i]])])
DocSeq(s) == Flat([i \in 1 .. Len(s) |-> DocAttr(s[i])])
Plain(tag) == [op |-> "start", tag |-> tag]
DocGlobal(scope, s) == IF s = <<>> THEN <<>>
                       ELSE <<[op |-> "start", tag |-> "global", scope |-> scope]>> \o DocSeq(s) \o <<En("global")>>
DocEvent(e) == <<Plain("event")>> \o DocMap(e.m) \o <<En("event")>>
DocTrace(t) == <<Plain("trace")>> \o DocMap(t.m) \o Flat([i \in 1 .. Len(t.ev) |-> DocEvent(t.ev[i])]) \o <<En("trace")>>
DocLog(g) ==
  LET xs == SetToSeq(g.ex)
  IN  <<[op |-> "start", tag |-> "log", ft |-> NoMap]>>
      \o Flat([i \in 1 .. Len(xs) |-> <<[op |-> "start", tag |-> "extension", den |-> xs[i]], En("extension")>>])
      \o DocGlobal("trace", g.gt) \o DocGlobal("event", g.ge)
      \o Flat([i \in 1 .. Len(g.cl) |-> <<[op |-> "start", tag |-> "classifier", name |-> g.cl[i][1], keys |-> g.cl[i][2]],
                                          En("classifier")>>])
      \o DocMap(g.m)
      \o Flat([i \in 1 .. Len(g.tr) |-> DocTrace(g.tr[i])])
      \o <<En("log")>>
=============================================================================
