------------------------------ MODULE MxmlDoc ------------------------------
(* The MXML document as element starts, texts and ends, the reader as a      *)
(* machine over them, and the writer as the sequence a log makes.            *)
(*                                                                           *)
(* start: [op, tag, at] with at: the XML attributes present by name (encoded *)
(* texts).  chars: [op, text].  end: [op, tag].  The text of an element is   *)
(* what stands between its start and its end, blanks at its ends aside.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Temporal, Clauses

NoMap == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NoAttr == [k |-> "", t |-> "", v |-> "", d |-> <<>>, x |-> "N", m |-> NoMap, c |-> <<>>]

\* blanks: space, line break, tab, carriage return (the last three as encoded)
RECURSIVE LTrim(_), RTrim(_)
LTrim(t) == IF Len(t) = 0 THEN t
            ELSE IF SubSeq(t, 1, 1) = " " THEN LTrim(SubSeq(t, 2, Len(t)))
            ELSE IF Len(t) >= 3 /\ SubSeq(t, 1, 3) \in {"%a;", "%9;", "%d;"} THEN LTrim(SubSeq(t, 4, Len(t)))
            ELSE t
RTrim(t) == LET n == Len(t)
            IN  IF n = 0 THEN t
                ELSE IF SubSeq(t, n, n) = " " THEN RTrim(SubSeq(t, 1, n - 1))
                ELSE IF n >= 3 /\ SubSeq(t, n - 2, n) \in {"%a;", "%9;", "%d;"} THEN RTrim(SubSeq(t, 1, n - 3))
                ELSE t
Trim(t) == LTrim(RTrim(t))

Lit(k, x, text) == [NoAttr EXCEPT !.k = k, !.t = "literal", !.v = "s" \o text, !.x = x]
MRef == "semantic:modelReference"
WithRef(m, at) == IF "modelReference" \in DOMAIN at /\ at["modelReference"] # ""
                  THEN Put(m, MRef, Lit(MRef, "semantic", at["modelReference"])) ELSE m
Has(at, n) == n \in DOMAIN at /\ at[n] # ""
Star == "%*"         \* an extension, or a value, of which nothing is claimed

-----------------------------------------------------------------------------
\* Reader.  Element under way: a leaf (its text still to come) and its text.

None == [m |-> NoMap, ev |-> <<>>, on |-> FALSE]
Reader0 == [logs |-> <<>>, src |-> <<>>, srcOpen |-> FALSE, proc |-> [m |-> NoMap, tr |-> <<>>, on |-> FALSE],
            inst |-> None, entry |-> None, leaf |-> NoAttr, text |-> ""]

Start(s, e) ==
  LET at == e.at IN
  CASE e.tag = "Source" ->
         [s EXCEPT !.src = <<[Lit("source", Star, at["program"]) EXCEPT !.m = WithRef(NoMap, at)]>>, !.srcOpen = TRUE]
    [] e.tag = "Process" ->
         LET m0 == IF s.src = <<>> THEN NoMap ELSE Put(NoMap, "source", s.src[1])
             m1 == IF "id" \in DOMAIN at /\ Trim(at["id"]) # "" THEN Put(m0, "concept:name", Lit("concept:name", "concept", at["id"])) ELSE m0
             m2 == Put(m1, "lifecycle:model", Lit("lifecycle:model", "lifecycle", "standard"))
             m3 == IF Has(at, "description") THEN Put(m2, "description", Lit("description", Star, at["description"])) ELSE m2
         IN  [s EXCEPT !.proc = [m |-> WithRef(m3, at), tr |-> <<>>, on |-> TRUE]]
    [] e.tag = "ProcessInstance" ->
         LET m1 == IF "id" \notin DOMAIN at THEN Put(NoMap, "concept:name", Lit("concept:name", Star, Star))
                   ELSE IF Trim(at["id"]) = "" THEN NoMap
                   ELSE Put(NoMap, "concept:name", Lit("concept:name", "concept", at["id"]))
             m2 == IF "description" \in DOMAIN at /\ Trim(at["description"]) # ""
                   THEN Put(m1, "description", Lit("description", Star, at["description"])) ELSE m1
         IN  [s EXCEPT !.inst = [m |-> WithRef(m2, at), ev |-> <<>>, on |-> TRUE]]
    [] e.tag = "AuditTrailEntry" -> [s EXCEPT !.entry = [None EXCEPT !.on = TRUE]]
    [] e.tag = "WorkflowModelElement" -> [s EXCEPT !.entry.m = WithRef(@, at), !.text = ""]
    [] e.tag = "Attribute" -> [s EXCEPT !.leaf = [Lit(Trim(at["name"]), Star, "") EXCEPT !.m = WithRef(NoMap, at)], !.text = ""]
    [] e.tag = "EventType" ->
         [s EXCEPT !.leaf = [Lit("lifecycle:transition", "lifecycle", IF Has(at, "unknowntype") THEN at["unknowntype"] ELSE "")
                               EXCEPT !.m = WithRef(NoMap, at)], !.text = ""]
    [] e.tag = "Originator" -> [s EXCEPT !.leaf = [Lit("org:resource", "org", "") EXCEPT !.m = WithRef(NoMap, at)], !.text = ""]
    [] e.tag = "Timestamp" -> [s EXCEPT !.text = ""]
    [] OTHER -> s

Chars(s, e) == [s EXCEPT !.text = @ \o e.text]

Place(s, a) ==
  CASE s.entry.on -> [s EXCEPT !.entry.m = Put(@, a.k, a)]
    [] s.inst.on  -> [s EXCEPT !.inst.m = Put(@, a.k, a)]
    [] s.proc.on  -> [s EXCEPT !.proc.m = Put(@, a.k, a)]
    [] s.srcOpen  -> [s EXCEPT !.src[1].m = Put(@, a.k, a)]
    [] OTHER -> s

End(s, e) ==
  LET t == Trim(s.text) IN
  CASE e.tag = "Source" -> [s EXCEPT !.srcOpen = FALSE]
    [] e.tag = "Process" -> [s EXCEPT !.logs = Append(@, [m |-> s.proc.m, tr |-> s.proc.tr]), !.proc.on = FALSE]
    [] e.tag = "ProcessInstance" ->
         IF s.inst.ev = <<>> THEN [s EXCEPT !.inst = None]
         ELSE [s EXCEPT !.proc.tr = Append(@, [m |-> s.inst.m, ev |-> s.inst.ev]), !.inst = None]
    [] e.tag = "AuditTrailEntry" -> [s EXCEPT !.inst.ev = Append(@, [m |-> s.entry.m]), !.entry = None]
    [] e.tag = "Attribute" -> IF t = "" THEN s ELSE Place(s, [s.leaf EXCEPT !.v = "s" \o t])
    [] e.tag = "EventType" -> IF s.leaf.v # "s" THEN [s EXCEPT !.entry.m = Put(@, s.leaf.k, s.leaf)]
                              ELSE IF t = "" THEN s
                              ELSE [s EXCEPT !.entry.m = Put(@, s.leaf.k, [s.leaf EXCEPT !.v = "s" \o t])]
    [] e.tag = "WorkflowModelElement" -> IF t = "" THEN s ELSE [s EXCEPT !.entry.m = Put(@, "concept:name", Lit("concept:name", "concept", t))]
    [] e.tag = "Originator" ->
         [s EXCEPT !.entry.m = Put(@, s.leaf.k, [s.leaf EXCEPT !.v = "s" \o (IF t = "" THEN Star ELSE t)])]
    [] e.tag = "Timestamp" ->
         IF ~Denotes(t) THEN s
         ELSE [s EXCEPT !.entry.m = Put(@, "time:timestamp", [NoAttr EXCEPT !.k = "time:timestamp", !.t = "timestamp", !.x = "time",
                                                                           !.v = "d", !.d = InstantOf(FieldsOf(t))])]
    [] OTHER -> s
MxEff(s, e) == CASE e.op = "start" -> Start(s, e) [] e.op = "chars" -> Chars(s, e) [] OTHER -> End(s, e)
RECURSIVE MxAll(_, _, _)
MxAll(s, es, i) == IF i > Len(es) THEN s ELSE MxAll(MxEff(s, es[i]), es, i + 1)

-----------------------------------------------------------------------------
\* what every log read from MXML carries
MxExtensions == {"concept", "org", "lifecycle", "semantic", "time"}
MxClassifiers == {<<"MXML Legacy Classifier", <<"concept:name", "lifecycle:transition">>>>,
                  <<"Event Name", <<"concept:name">>>>, <<"Resource", <<"org:resource">>>>}
MxGlobals == [gt |-> {"concept:name"}, ge |-> {"concept:name", "lifecycle:transition"}]

\* observed attributes against wanted ones
RECURSIVE Same(_, _)
Same(w, o) == /\ w.k = o.k /\ w.t = o.t
              /\ (w.v = "s" \o Star \/ w.v = o.v)
              /\ (w.t = "timestamp" => w.d = InstantOf(o.d))
              /\ (w.x = Star \/ w.x = o.x)
              /\ DOMAIN w.m = DOMAIN o.m /\ \A k \in DOMAIN w.m : Same(w.m[k], o.m[k])
              /\ o.c = <<>>
SameMap(w, o) == DOMAIN w = DOMAIN o /\ \A k \in DOMAIN w : Same(w[k], o[k])
Standard(g) ==
  (IF {g.ex[i] : i \in 1 .. Len(g.ex)} = MxExtensions THEN {} ELSE {"extensions"})
  \cup (IF {g.cl[i] : i \in 1 .. Len(g.cl)} = MxClassifiers /\ Len(g.cl) = 3 THEN {} ELSE {"classifiers"})
  \cup (IF /\ {g.gt[i].k : i \in 1 .. Len(g.gt)} = MxGlobals.gt /\ Len(g.gt) = 1
           /\ {g.ge[i].k : i \in 1 .. Len(g.ge)} = MxGlobals.ge /\ Len(g.ge) = 2
           /\ \A i \in 1 .. Len(g.gt) : g.gt[i].t = "literal" /\ g.gt[i].x = "concept"
           /\ \A i \in 1 .. Len(g.ge) : g.ge[i].t = "literal" /\ g.ge[i].x = (IF g.ge[i].k = "concept:name" THEN "concept" ELSE "lifecycle")
        THEN {} ELSE {"globals"})
MxDiff(w, o) ==
  (IF SameMap(w.m, o.m) THEN {} ELSE {"log_attributes"})
  \cup (IF Len(w.tr) # Len(o.tr) THEN {"traces"}
        ELSE UNION {(IF SameMap(w.tr[i].m, o.tr[i].m) THEN {} ELSE {"trace_attributes"})
                    \cup (IF Len(w.tr[i].ev) # Len(o.tr[i].ev) THEN {"events"}
                          ELSE IF \A j \in 1 .. Len(w.tr[i].ev) : SameMap(w.tr[i].ev[j].m, o.tr[i].ev[j].m)
                               THEN {} ELSE {"event_attributes"}) : i \in 1 .. Len(w.tr)})

-----------------------------------------------------------------------------
\* Round trip: what must come back of the attributes of a log, trace or event

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Known == {"schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort", "complete",
          "autoskip", "manualskip"}
\* the text of an attribute: its value in letters; of collections and dates nothing is claimed here
TextOf(a) == CASE a.t \in {"list", "container", "timestamp"} -> Star
               [] OTHER -> Trim(SubSeq(a.v, 2, Len(a.v)))
Ref(a) == IF MRef \in DOMAIN a.m /\ a.m[MRef].t = "literal" /\ a.m[MRef].v # "s" THEN Put(NoMap, MRef, Lit(MRef, Star, SubSeq(a.m[MRef].v, 2, Len(a.m[MRef].v)))) ELSE NoMap
\* the data attributes of a map: [key path, attribute]
RECURSIVE Datas(_, _)
Datas(m, prefix) ==
  UNION {(IF k = MRef \/ TextOf(m[k]) = "" THEN {} ELSE {[k |-> prefix \o k, a |-> m[k]]})
         \cup Datas(m[k].m, prefix \o k \o ":") : k \in DOMAIN m}
\* keys that two attributes claim: nothing is claimed of these
Keyset(D) == {x.k : x \in D}
ByKey(D, k) == {x.a : x \in {y \in D : y.k = k}}

\* identities may be spelled in capitals
Big == [x \in {"a", "b", "c", "d", "e", "f"} |-> CASE x = "a" -> "A" [] x = "b" -> "B" [] x = "c" -> "C" [] x = "d" -> "D" [] x = "e" -> "E" [] x = "f" -> "F"]
RECURSIVE Capitals(_, _)
Capitals(t, i) == IF i > Len(t) THEN "" ELSE LET x == SubSeq(t, i, i) IN (IF x \in DOMAIN Big THEN Big[x] ELSE x) \o Capitals(t, i + 1)
\* an observed attribute o is the data attribute of a
Says(a, o) ==   /\ o.t = "literal"
                /\ (CASE a.t = "timestamp" -> LET v == SubSeq(o.v, 2, Len(o.v))
                                              IN  Denotes(v) /\ ToMilli(InstantOf(FieldsOf(v))) = ToMilli(InstantOf(a.d))
                      [] TextOf(a) = Star -> o.v # "s"
                      [] a.t = "id" -> o.v \in {"s" \o TextOf(a), "s" \o Capitals(TextOf(a), 1)}
                      [] OTHER -> o.v = "s" \o TextOf(a))
IsData(a, o) == /\ Says(a, o)
                /\ LET r == Ref(a) IN DOMAIN r = DOMAIN o.m /\ \A k \in DOMAIN r : r[k].v = o.m[k].v
Val(m, k) == SubSeq(m[k].v, 2, Len(m[k].v))
\* the standard attributes of an event: key -> [v, r]
Transition(m, low) == IF "lifecycle:transition" \notin DOMAIN m THEN [v |-> "complete", r |-> NoMap]
                      ELSE [v |-> IF Trim(low) \in Known THEN Trim(low) ELSE Val(m, "lifecycle:transition"), r |-> Ref(m["lifecycle:transition"])]
OrigKey(m) == CASE "org:resource" \in DOMAIN m -> "org:resource" [] "org:role" \in DOMAIN m -> "org:role"
                [] "org:group" \in DOMAIN m -> "org:group" [] OTHER -> ""
IsText(o, v, r) == o.t = "literal" /\ o.v = "s" \o v /\ DOMAIN r = DOMAIN o.m /\ \A k \in DOMAIN r : r[k].v = o.m[k].v
\* name, model reference and data of any element; own: keys the standard elements of the format set
CommonBad(m, o, own, extra) ==
  LET D == Datas(m, "") IN
  Clause("name", "concept:name" \in DOMAIN m => "concept:name" \in DOMAIN o /\ Says(m["concept:name"], o["concept:name"]))
  \cup Clause("model_reference", IF MRef \in DOMAIN m THEN MRef \in DOMAIN o /\ o[MRef].v = m[MRef].v ELSE MRef \notin DOMAIN o)
  \cup Clause("data", \A k \in Keyset(D) \ own : Cardinality(ByKey(D, k)) = 1 =>
                         k \in DOMAIN o /\ \A a \in ByKey(D, k) : IsData(a, o[k]))
  \cup Clause("invented", DOMAIN o \subseteq Keyset(D) \cup own \cup extra \cup {MRef})
EventBad(m, low, o) ==
  CommonBad(m, o, {"concept:name", "lifecycle:transition", "time:timestamp", "org:resource"}, {})
  \cup Clause("unnamed", "concept:name" \notin DOMAIN m /\ ~(\E x \in Datas(m, "") : x.k = "concept:name") => "concept:name" \notin DOMAIN o)
  \cup Clause("transition", "lifecycle:transition" \in DOMAIN o
                             /\ IF "lifecycle:transition" \in DOMAIN m /\ m["lifecycle:transition"].t # "literal"
                                THEN IsData(m["lifecycle:transition"], o["lifecycle:transition"])
                                ELSE IsText(o["lifecycle:transition"], Transition(m, low).v, Transition(m, low).r))
  \cup Clause("originator", IF OrigKey(m) = "" THEN "org:resource" \notin DOMAIN o
                            ELSE "org:resource" \in DOMAIN o
                                 /\ IsData(m[OrigKey(m)], o["org:resource"]))
  \cup Clause("timestamp", IF "time:timestamp" \notin DOMAIN m THEN "time:timestamp" \notin DOMAIN o
                           ELSE m["time:timestamp"].t = "timestamp" =>
                                "time:timestamp" \in DOMAIN o /\ o["time:timestamp"].t = "timestamp"
                                /\ ToMilli(o["time:timestamp"].d) = ToMilli(InstantOf(m["time:timestamp"].d)))
\* the traces that have events
Carried(g) == SelectSeq(g.tr, LAMBDA t : t.ev # <<>>)
TripBad(g, low, o) ==    \* low: the lower-cased transitions of the carried events by trace and event
  LET c == Carried(g) IN
  CommonBad(g.m, o.m, {"concept:name"}, {"source", "description", "lifecycle:model"})
  \cup (IF Len(o.tr) # Len(c) THEN {"traces"}
        ELSE UNION {CommonBad(c[i].m, o.tr[i].m, {"concept:name"}, {"description"})
                    \cup (IF Len(o.tr[i].ev) # Len(c[i].ev) THEN {"events"}
                          ELSE UNION {EventBad(c[i].ev[j].m, low[i][j], o.tr[i].ev[j].m) : j \in 1 .. Len(c[i].ev)}) : i \in 1 .. Len(c)})

-----------------------------------------------------------------------------
\* Writer: the document of a log

St(tag, at) == [op |-> "start", tag |-> tag, at |-> at]
En(tag) == [op |-> "end", tag |-> tag]
Tx(t) == [op |-> "chars", text |-> t]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(SubSeq(ss, 2, Len(ss)))
RefAt(m) == IF MRef \in DOMAIN m THEN Put(NoMap, "modelReference", Val(m, MRef)) ELSE NoMap
RECURSIVE DataDoc(_, _)
DataDoc(m, prefix) ==
  LET ks == SetSeq(DOMAIN m)
  IN  Flat([i \in 1 .. Len(ks) |->
        (IF ks[i] = MRef THEN <<>>
         ELSE <<St("Attribute", Put(RefAt(m[ks[i]].m), "name", prefix \o ks[i])), Tx(TextOf(m[ks[i]])), En("Attribute")>>)
        \o DataDoc(m[ks[i]].m, prefix \o ks[i] \o ":")])
EventDoc(m) ==
  <<St("AuditTrailEntry", NoMap)>> \o DataDoc(m, "")
  \o <<St("WorkflowModelElement", RefAt(m)), Tx(IF "concept:name" \in DOMAIN m THEN Val(m, "concept:name") ELSE ""), En("WorkflowModelElement")>>
  \o (IF "lifecycle:transition" \notin DOMAIN m THEN <<St("EventType", NoMap), Tx("complete"), En("EventType")>>
      ELSE IF Val(m, "lifecycle:transition") \in Known
           THEN <<St("EventType", RefAt(m["lifecycle:transition"].m)), Tx(Val(m, "lifecycle:transition")), En("EventType")>>
           ELSE <<St("EventType", Put(RefAt(m["lifecycle:transition"].m), "unknowntype", Val(m, "lifecycle:transition"))), Tx("unknown"), En("EventType")>>)
  \o (IF OrigKey(m) = "" THEN <<>> ELSE <<St("Originator", RefAt(m[OrigKey(m)].m)), Tx(Val(m, OrigKey(m))), En("Originator")>>)
  \o <<En("AuditTrailEntry")>>
IdAt(m) == Put(RefAt(m), "id", IF "concept:name" \in DOMAIN m THEN Val(m, "concept:name") ELSE "none")
DocMx(g) ==
  <<St("WorkflowLog", NoMap), St("Source", Put(NoMap, "program", "p")), En("Source"), St("Process", IdAt(g.m))>> \o DataDoc(g.m, "")
  \o Flat([i \in 1 .. Len(g.tr) |-> <<St("ProcessInstance", IdAt(g.tr[i].m))>> \o DataDoc(g.tr[i].m, "")
                                    \o Flat([j \in 1 .. Len(g.tr[i].ev) |-> EventDoc(g.tr[i].ev[j].m)]) \o <<En("ProcessInstance")>>])
  \o <<En("Process"), En("WorkflowLog")>>
=============================================================================
