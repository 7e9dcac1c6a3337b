------------------------------- MODULE MC_P24 -------------------------------
(* A definition is written element by element while it is read by a machine  *)
(* with a current section and a current attribute, as a SAX reader is; at    *)
(* every moment what was read is what is written so far.                     *)
EXTENDS ExtFile, McKit
CONSTANTS MaxAttrs, MaxSecs, MaxAliases
VARIABLES doc, cur, open, read, names
vars == <<doc, cur, open, read, names>>
Count == LET RECURSIVE N(_)
             N(i) == IF i > Len(doc.secs) THEN 0 ELSE Len(doc.secs[i][2]) + N(i + 1)
         IN  N(1)
Init == doc = [name |-> "X", prefix |-> "x", uri |-> "http://x.org/x.xesext", secs |-> <<>>] /\ cur = "" /\ open = <<>>
        /\ read = [s \in {"log", "trace", "event", "meta"} |-> {}] /\ names = NoNames
Last == Len(doc.secs)
Section == /\ open = <<>> /\ Len(doc.secs) < MaxSecs
           /\ \E s \in {"log", "event", "meta"} : doc' = [doc EXCEPT !.secs = Append(@, <<s, <<>>>>)] /\ cur' = s
           /\ UNCHANGED <<open, read, names>>
Attribute == /\ open = <<>> /\ cur # "" /\ Count < MaxAttrs
             /\ \E t \in {"string", "id"}, k \in {"a", "b"} :
                  /\ \A i \in 1 .. Last : doc.secs[i][1] = cur => \A j \in 1 .. Len(doc.secs[i][2]) : <<doc.secs[i][2][j][1], doc.secs[i][2][j][2]>> # <<t, k>>
                  /\ doc' = [doc EXCEPT !.secs[Last][2] = Append(@, <<t, k, <<>>>>)]
                  /\ open' = <<"x:" \o k>>
                  /\ read' = [read EXCEPT ![cur] = @ \cup {<<TypeOf(t), "x:" \o k>>}]
             /\ UNCHANGED <<cur, names>>
Alias == /\ open # <<>>
         /\ LET as == doc.secs[Last][2]
                a == as[Len(as)]
            IN  /\ Len(a[3]) < 2 /\ Len(Aliases(doc, 1)) < MaxAliases
                /\ \E g \in {"EN", "DE"}, n \in {"one", "two"} :
                     /\ doc' = [doc EXCEPT !.secs[Last][2][Len(as)][3] = Append(@, <<g, n>>)]
                     /\ names' = Name(names, g, open[1], n)
         /\ UNCHANGED <<cur, open, read>>
Close == open # <<>> /\ open' = <<>> /\ Emit(doc.secs) /\ UNCHANGED <<doc, cur, read, names>>
Next == Section \/ Attribute \/ Alias \/ Close
Exact == /\ \A s \in {"log", "trace", "event", "meta"} : read[s] = Defined(doc, s)
         /\ names = NameAll(NoNames, Aliases(doc, 1), 1)
=============================================================================
