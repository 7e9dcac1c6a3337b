----------------------------- MODULE InfoCache -----------------------------
(* P21: summaries cached in their logs.  Each log holds at most one entry:   *)
(* a classifier (by value) and a summary (by number).                        *)
EXTENDS Integers, Sequences, FiniteSets, Clauses
NoEntry == [has |-> FALSE]
Hit(s, l, c) == s.log[l].has /\ s.log[l].c = c
\* made: the classifier and log each summary was built for
Asked(s, l, c) == IF Hit(s, l, c) THEN [st |-> s, info |-> s.log[l].i]
                  ELSE LET n == Len(s.made) + 1
                       IN  [st |-> [log |-> [s.log EXCEPT ![l] = [has |-> TRUE, c |-> c, i |-> n]], made |-> Append(s.made, <<l, c>>)], info |-> n]
Built(s, l, c) == [s EXCEPT !.made = Append(@, <<l, c>>)]        \* a summary made aside
SetInfo(s, l, c, i) == [s EXCEPT !.log[l] = [has |-> TRUE, c |-> c, i |-> i]]
NewLog(s) == [s EXCEPT !.log = Append(@, NoEntry)]
Peek(s, l, c) == IF Hit(s, l, c) THEN s.log[l].i ELSE 0
Start == [log |-> <<>>, made |-> <<>>]
=============================================================================
