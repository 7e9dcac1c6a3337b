------------------------------- MODULE MC_P14 -------------------------------
EXTENDS Stamp, McKit
CONSTANTS MaxOps
VARIABLES s, hist
view == <<s, Len(hist)>>
Values == { <<1970, 1, 1, 0, 0, 0, 0, 0>>, <<1970, 1, 1, 0, 0, 0, 0, Naive>>, <<2017, 7, 1, 12, 30, 15, 678901, 330>>, <<2017, 1, 1, 0, 10, 0, 999, -210>>, <<1969, 12, 31, 23, 59, 59, 999999, 0>> }
Millis == { <<0, 0, 0>>, <<-1, 86399, 999>>, <<17000, 43200, 5>>, <<-25568, 1, 1>> }
Init == hist = <<>> /\ s = [kind |-> "none", d |-> <<>>, at |-> <<>>]
New == hist = <<>> /\ ((\E v \in Values : s' = FromFields(v) /\ hist' = << <<"new", v>> >>) \/ (\E m \in Millis : s' = FromMillis(m) /\ hist' = << <<"newms", m>> >>))
Set == hist # <<>> /\ ((\E v \in Values : s' = SetEff(s, v) /\ hist' = Append(hist, <<"set", v>>)) \/ (\E m \in Millis : s' = MillisEff(s, m) /\ hist' = Append(hist, <<"setms", m>>)))
Next == Len(hist) < MaxOps /\ (New \/ Set) /\ Emit(hist')
\* the views of the last assignment agree with each other and with nothing else
LastWins == hist = <<>> \/ LET h == hist[Len(hist)] IN
              IF h[1] \in {"new", "set"} THEN ValueAgrees(s, h[2]) /\ MillisAgree(s, InstantOf(h[2]))
              ELSE MillisAgree(s, FromMillis(h[2]).at)
Discerns == \A v, w \in Values :
              ~Near(InstantOf(v), InstantOf(w), 2) => ~ValueAgrees(FromFields(v), w) /\ ~MillisAgree(FromFields(v), InstantOf(w))
=============================================================================
