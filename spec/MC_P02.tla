------------------------------- MODULE MC_P02 -------------------------------
(* The reader's stack machine over all documents of bounded size: elements   *)
(* opened and closed one by one.  The ghost count follows every attribute    *)
(* element to where it went.                                                 *)
EXTENDS XesDoc, McKit
CONSTANTS MaxStarts
VARIABLES s, open, n, hist, ghost
\* open: the kinds of the open elements, innermost last
view == <<s, open, n, ghost>>
Ev(tag, key) == [op |-> "start", tag |-> tag, key |-> "s" \o key, den |-> IF tag = "int" THEN "i1" ELSE "sx", text |-> "bad",
                 scope |-> "event", name |-> "c", keys |-> <<"k">>, ft |-> NoMap]
Top == IF open = <<>> THEN "none" ELSE open[Len(open)]
\* the element that counts: foreign ones are transparent
RECURSIVE Real(_)
Real(i) == IF i = 0 THEN "none" ELSE IF open[i] = "meta" THEN Real(i - 1) ELSE open[i]
Where == Real(Len(open))
Allowed ==
  CASE Where = "none" -> {<<"log", "">>}
    [] Where = "log" -> {<<"trace", "">>, <<"string", "a">>, <<"global", "">>, <<"list", "a">>, <<"meta", "">>, <<"date", "b">>}
    [] Where = "trace" -> {<<"event", "">>, <<"string", "a">>, <<"meta", "">>}
    [] Where = "event" -> {<<"string", "a">>, <<"int", "b">>, <<"date", "a">>, <<"meta", "">>}
    [] Where = "global" -> {<<"string", "a">>, <<"date", "b">>, <<"list", "a">>}
    [] OTHER -> {<<"string", "a">>, <<"string", "b">>, <<"date", "a">>, <<"container", "b">>, <<"meta", "">>}
Init == s = Reader0 /\ open = <<>> /\ n = 0 /\ hist = <<>> /\ ghost = 0
Start == /\ n < MaxStarts /\ ~s.done
         /\ \E x \in Allowed :
              /\ s' = ReadEff(s, Ev(x[1], x[2]))
              /\ open' = Append(open, x[1])
              /\ hist' = Append(hist, x)
              /\ ghost' = IF x[1] \in AttrTags THEN ghost + 1 ELSE ghost
         /\ n' = n + 1
End == /\ open # <<>>
       /\ s' = ReadEff(s, En(Top))
       /\ open' = SubSeq(open, 1, Len(open) - 1)
       /\ hist' = Append(hist, <<"", "">>)
       /\ UNCHANGED <<n, ghost>>
       /\ IF Len(open) = 1 THEN Emit(hist') ELSE TRUE
Next == Start \/ End

RECURSIVE Size(_), SumF(_, _)
SumF(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN Size(f[x]) + SumF(f, D \ {x})
Size(a) == 1 + SumF(a.m, DOMAIN a.m) + SumF(a.c, DOMAIN a.c)
RECURSIVE SumEv(_, _)
SumEv(es, i) == IF i > Len(es) THEN 0 ELSE SumF(es[i].m, DOMAIN es[i].m) + SumEv(es, i + 1)
RECURSIVE SumTr(_, _)
SumTr(ts, i) == IF i > Len(ts) THEN 0 ELSE SumF(ts[i].m, DOMAIN ts[i].m) + SumEv(ts[i].ev, 1) + SumTr(ts, i + 1)
Count(tag) == Cardinality({i \in 1 .. Len(hist) : hist[i][1] = tag})
\* every frame but those of skipped elements is open; nothing is left over
Stacked == Len(s.fr) + s.skip = Len(open)
Finished == s.done => /\ s.fr = <<>> /\ s.skip = 0 /\ open = <<>>
                      /\ Len(s.tr) = Count("trace")
                      /\ LET got == SumF(s.m, DOMAIN s.m) + SumTr(s.tr, 1) + SumF(s.gt, DOMAIN s.gt) + SumF(s.ge, DOMAIN s.ge)
                         IN  /\ got <= ghost
                             \* without dates and repeated keys nothing is lost
                             /\ Count("date") = 0 /\ Count("string") + Count("list") <= 1 => got = ghost
=============================================================================
