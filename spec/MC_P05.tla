------------------------------- MODULE MC_P05 -------------------------------
(* The MXML reader over all documents of bounded size.                       *)
EXTENDS MxmlDoc, McKit
CONSTANTS MaxStarts
VARIABLES s, open, n, hist
view == <<s, open, n>>
Top == IF open = <<>> THEN "none" ELSE open[Len(open)]
Leafs == {"Attribute", "EventType", "WorkflowModelElement", "Originator", "Timestamp"}
\* what may start inside what; the second part chooses attributes and text
Allowed ==
  CASE Top = "none" -> {<<"WorkflowLog", "">>}
    [] Top = "WorkflowLog" -> {<<"Process", "">>, <<"Process", "d">>} \cup (IF n = 1 THEN {<<"Source", "">>} ELSE {})
    [] Top = "Source" -> {<<"Attribute", "a">>}
    [] Top = "Process" -> {<<"ProcessInstance", "">>, <<"ProcessInstance", "m">>, <<"Attribute", "a">>}
    [] Top = "ProcessInstance" -> {<<"AuditTrailEntry", "">>, <<"Attribute", "a">>, <<"Attribute", "">>}
    [] Top = "AuditTrailEntry" -> {<<"Attribute", "a">>, <<"EventType", "u">>, <<"EventType", "c">>, <<"EventType", "">>,
                                   <<"WorkflowModelElement", "a">>, <<"Originator", "a">>, <<"Timestamp", "1">>, <<"Timestamp", "2">>,
                                   <<"Timestamp", "bad">>}
    [] OTHER -> {}
At(tag, x) ==
  CASE tag = "Source" -> Put(NoMap, "program", "p")
    [] tag = "Process" -> IF x = "d" THEN Put(Put(NoMap, "id", "i"), "description", "d") ELSE NoMap
    [] tag = "ProcessInstance" -> IF x = "m" THEN Put(Put(NoMap, "id", "i"), "modelReference", "r") ELSE Put(NoMap, "id", "")
    [] tag = "Attribute" -> Put(NoMap, "name", "n")
    [] tag = "EventType" -> IF x = "u" THEN Put(NoMap, "unknowntype", "odd") ELSE NoMap
    [] OTHER -> NoMap
Text(tag, x) == CASE tag = "Timestamp" -> (CASE x = "1" -> "2017-01-01T00:00:01Z" [] x = "2" -> "2017-01-01T00:00:02+01:00" [] OTHER -> "soon")
                  [] x = "u" -> "unknown"
                  [] OTHER -> x
Init == s = Reader0 /\ open = <<>> /\ n = 0 /\ hist = <<>>
Open == /\ n < MaxStarts
        /\ ~(open = <<>> /\ hist # <<>>)
        /\ \E x \in Allowed :
             LET a == MxEff(s, [op |-> "start", tag |-> x[1], at |-> At(x[1], x[2])])
             IN  IF x[1] \in Leafs
                 THEN /\ s' = MxEff(MxEff(a, [op |-> "chars", text |-> Text(x[1], x[2])]), [op |-> "end", tag |-> x[1]])
                      /\ open' = open
                      /\ hist' = hist \o <<x, <<"", "">>>>
                 ELSE s' = a /\ open' = Append(open, x[1]) /\ hist' = Append(hist, x)
        /\ n' = n + 1
Close == /\ open # <<>>
         /\ s' = MxEff(s, [op |-> "end", tag |-> Top])
         /\ open' = SubSeq(open, 1, Len(open) - 1)
         /\ hist' = Append(hist, <<"", "">>)
         /\ n' = n
         /\ IF Len(open) = 1 THEN Emit(hist') ELSE TRUE
Next == Open \/ Close

Count(T) == Cardinality({i \in 1 .. Len(hist) : hist[i][1] \in T})
RECURSIVE Events(_, _), InLogs(_, _)
Events(ts, i) == IF i > Len(ts) THEN 0 ELSE Len(ts[i].ev) + Events(ts, i + 1)
InLogs(gs, i) == IF i > Len(gs) THEN 0 ELSE Events(gs[i].tr, 1) + InLogs(gs, i + 1)
Done == hist # <<>> /\ open = <<>>
\* nothing lost, nothing invented, nothing left open
Counts == Done => /\ Len(s.logs) = Count({"Process"})
                  /\ InLogs(s.logs, 1) = Count({"AuditTrailEntry"})
                  /\ ~s.proc.on /\ ~s.inst.on /\ ~s.entry.on /\ ~s.srcOpen
NoEmptyTrace == \A i \in 1 .. Len(s.logs) : \A j \in 1 .. Len(s.logs[i].tr) : s.logs[i].tr[j].ev # <<>>
\* an event has the attributes its entry carries and no others
Legit == \A i \in 1 .. Len(s.logs) : \A j \in 1 .. Len(s.logs[i].tr) : \A q \in 1 .. Len(s.logs[i].tr[j].ev) :
           DOMAIN s.logs[i].tr[j].ev[q].m \subseteq {"n", "lifecycle:transition", "concept:name", "org:resource", "time:timestamp"}
=============================================================================
