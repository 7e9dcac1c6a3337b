------------------------------- MODULE MC_P12 -------------------------------
EXTENDS Insertion, McKit
CONSTANTS MaxLen, Times
VARIABLES tr, hist
Init == tr = <<>> /\ hist = <<>>
T(k) == IF k = 0 THEN None ELSE <<0, 0, k>>
Step == \E k \in 0 .. Times :
          \/ tr' = InsertEff(tr, Len(tr) + 1, T(k)) /\ hist' = Append(hist, k)
          \* appending is interesting only where insertion would do otherwise
          \/ Place(tr, T(k)) # Len(tr) + 1 /\ tr' = AppendEff(tr, Len(tr) + 1, T(k)) /\ hist' = Append(hist, k + 100)
Next == Len(tr) < MaxLen /\ Step /\ (IF Len(tr') = MaxLen THEN Emit(hist') ELSE TRUE)
OnlyInserted == \A i \in 1 .. Len(hist) : hist[i] < 100
Chronological == Timed(tr) /\ OnlyInserted => Sorted(tr) /\ StableOrder(tr)
\* the same law read off the statement: after the last event not later, or at the front
Where == [][LET n == Len(tr') IN
             OnlyInserted' /\ Timed(tr') =>
               LET p == CHOOSE i \in 1 .. n : tr'[i].n = n
               IN  /\ \A i \in p + 1 .. n : InstantLess(tr'[p].t, tr'[i].t)
                   /\ p > 1 => AtMost(tr'[p - 1].t, tr'[p].t)]_<<tr, hist>>
RECURSIVE Drop(_, _)
Drop(s, n) == IF s = <<>> THEN <<>> ELSE (IF s[1].n = n THEN <<>> ELSE <<s[1]>>) \o Drop(SubSeq(s, 2, Len(s)), n)
OthersKept == [][Drop(tr', Len(tr')) = tr]_<<tr, hist>>
=============================================================================
