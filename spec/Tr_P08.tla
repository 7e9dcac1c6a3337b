------------------------------- MODULE Tr_P08 -------------------------------
EXTENDS TraceKit, Tokens
TInit(case) == 0
TStep(case, s, e) ==
  CASE e.err # "" -> Res(s, {"fails"})
    [] e.op = "trip" ->
         Res(s, Clause("round_trip", (\A i \in 1 .. Len(e.keys) : GoodKey(e.keys[i])) => e.toks = e.keys))
    [] e.op = "extract" ->
         Res(s, Clause("empty_token", \A i \in 1 .. Len(e.toks) : e.toks[i] # "")
                \cup Clause("letters", Letters(Cat(e.toks), 1) = Letters(e.text, 1))
                \cup Clause("split", QuotesAlone(e.text, 1, FALSE) => Normal(e.toks) = TokensOf(e.text)))
=============================================================================
