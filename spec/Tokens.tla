------------------------------- MODULE Tokens -------------------------------
(* P08: the text form of classifier key lists.  Texts are strings; a text is *)
(* read one character at a time by a two-state machine (outside or inside a  *)
(* quotation).                                                               *)
EXTENDS Integers, Sequences

Ch(t, i) == SubSeq(t, i, i)

RECURSIVE LStrip(_), RStrip(_)
LStrip(t) == IF Len(t) > 0 /\ Ch(t, 1) = " " THEN LStrip(SubSeq(t, 2, Len(t))) ELSE t
RStrip(t) == IF Len(t) > 0 /\ Ch(t, Len(t)) = " " THEN RStrip(SubSeq(t, 1, Len(t) - 1)) ELSE t
Strip(t) == LStrip(RStrip(t))

\* scanner state: tokens so far, current token, inside a quotation?
Scan0 == [toks |-> <<>>, cur |-> "", q |-> FALSE]
Flush(s) == IF Strip(s.cur) = "" THEN [s EXCEPT !.cur = ""]
            ELSE [s EXCEPT !.toks = Append(@, Strip(s.cur)), !.cur = ""]
ScanStep(s, ch) ==
  CASE ch = "'"              -> [Flush(s) EXCEPT !.q = ~s.q]
    [] ch = " " /\ ~s.q      -> Flush(s)
    [] OTHER                 -> [s EXCEPT !.cur = @ \o ch]

RECURSIVE ScanFrom(_, _, _)
ScanFrom(s, t, i) == IF i > Len(t) THEN Flush(s) ELSE ScanFrom(ScanStep(s, Ch(t, i)), t, i + 1)
TokensOf(t) == ScanFrom(Scan0, t, 1).toks

\* every quotation begins and ends at a blank or at an end of the text, so
\* that it cannot be read as a part of a longer token
RECURSIVE QuotesAlone(_, _, _)
QuotesAlone(t, i, q) ==
  IF i > Len(t) THEN TRUE
  ELSE IF Ch(t, i) # "'" THEN QuotesAlone(t, i + 1, q)
  ELSE /\ IF q THEN i = Len(t) \/ Ch(t, i + 1) = " "
               ELSE i = 1 \/ Ch(t, i - 1) = " "
       /\ QuotesAlone(t, i + 1, ~q)

\* the letters of a text: what is neither blank nor quote
RECURSIVE Letters(_, _)
Letters(t, i) == IF i > Len(t) THEN ""
                 ELSE (IF Ch(t, i) \in {" ", "'"} THEN "" ELSE Ch(t, i)) \o Letters(t, i + 1)
RECURSIVE Cat(_)
Cat(ts) == IF ts = <<>> THEN "" ELSE ts[1] \o Cat(SubSeq(ts, 2, Len(ts)))

\* the documented text form: keys with blanks are quoted
HasBlank(k) == \E i \in 1 .. Len(k) : Ch(k, i) = " "
Quoted(k) == IF HasBlank(k) THEN "'" \o k \o "'" ELSE k
RECURSIVE FormatKeys(_)
FormatKeys(ks) == IF ks = <<>> THEN ""
                  ELSE Quoted(ks[1]) \o (IF Len(ks) = 1 THEN "" ELSE " " \o FormatKeys(SubSeq(ks, 2, Len(ks))))

GoodKey(k) == k # "" /\ Strip(k) = k /\ \A i \in 1 .. Len(k) : Ch(k, i) # "'"

\* observed tokens, surrounding blanks (kept or not inside quotes) aside
RECURSIVE Normal(_)
Normal(ts) == IF ts = <<>> THEN <<>>
              ELSE (IF Strip(ts[1]) = "" THEN <<>> ELSE <<Strip(ts[1])>>) \o Normal(SubSeq(ts, 2, Len(ts)))
=============================================================================
