------------------------------- MODULE MC_P32 -------------------------------
(* Two loggers and three listeners, the third switching its logger to the    *)
(* first: changes of listener and messages in any order; heard: what the     *)
(* messages so far reached.                                                  *)
EXTENDS Logging, McKit
CONSTANTS MaxOps
VARIABLES at, heard, hist
vars == <<at, heard, hist>>
view == <<at, Len(hist)>>
Then == [x \in {3} |-> 1]
Init == at = <<Default, Default>> /\ heard = <<>> /\ hist = <<>>
Do(h) == Len(hist) < MaxOps /\ hist' = Append(hist, h) /\ Emit(hist')
Change == \E i \in 1 .. 2, l \in 0 .. 3 : at' = SetTo(at, i, l) /\ UNCHANGED heard /\ Do(<<"set", i, l>>)
Log == \E i \in 1 .. 2, w \in {"N", "ERROR"} : /\ at' = After(at, i, Then) /\ heard' = Append(heard, <<i, Hears(at, i), at[i]>>)
                                                /\ Do(<<"log", i, w>>)
Next == Change \/ Log
OnceOrDropped == \A n \in 1 .. Len(heard) : heard[n][2] = IF heard[n][3] = 0 THEN <<>> ELSE <<heard[n][3]>>
\* a message or change concerns one logger only
Apart == [][Cardinality({i \in 1 .. 2 : at'[i] # at[i]}) <= 1]_vars
Silent == [][hist'[Len(hist')][1] = "set" => heard' = heard]_vars
=============================================================================
