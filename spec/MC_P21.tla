------------------------------- MODULE MC_P21 -------------------------------
(* Requests, explicit settings and clones over two logs and three            *)
(* classifiers (0 is the standard one, also meant when none is given).       *)
EXTENDS InfoCache, McKit
CONSTANTS MaxOps
VARIABLES s, hist
vars == <<s, hist>>
view == <<s, Len(hist)>>
Init == s = NewLog(NewLog(Start)) /\ hist = <<>>
Do(h) == Len(hist) < MaxOps /\ hist' = Append(hist, h) /\ Emit(hist')
Ask(l, c) == s' = Asked(s, l, c).st /\ Do(<<"ask", l, c>>)
Set(l, i) == s.made[i][1] = l /\ s' = SetInfo(s, l, s.made[i][2], i) /\ Do(<<"set", l, i>>)
Make(l, c) == s' = Built(s, l, c) /\ Do(<<"make", l, c>>)
Clone(l) == Len(s.log) < 3 /\ s' = NewLog(s) /\ Do(<<"clone", l>>)
Next == \E l \in 1 .. Len(s.log) :
          \/ \E c \in 0 .. 2 : Ask(l, c)
          \/ \E c \in 0 .. 1 : Make(l, c)
          \/ \E i \in 1 .. Len(s.made) : Set(l, i)
          \/ Clone(l)
\* an entry answers for its own log and its own classifier
Sound == \A l \in 1 .. Len(s.log) : s.log[l].has => s.made[s.log[l].i] = <<l, s.log[l].c>>
\* asking again returns the same summary
Again == \A l \in 1 .. Len(s.log), c \in 0 .. 2 : LET a == Asked(s, l, c) IN Asked(a.st, l, c).info = a.info /\ a.st.made[a.info] = <<l, c>>
OthersKept == [][\A l \in 1 .. Len(s.log) : hist'[Len(hist')][2] # l => s'.log[l] = s.log[l]]_vars
=============================================================================
