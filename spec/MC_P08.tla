------------------------------- MODULE MC_P08 -------------------------------
(* All texts up to MaxLen over a blank, a quote and letters, typed one       *)
(* character at a time.  Every text is both a text to extract from and, cut  *)
(* at "|", a list of keys to format.                                         *)
EXTENDS Tokens, McKit
CONSTANTS MaxLen, Alphabet
VARIABLES text
Init == text = ""
Next == /\ Len(text) < MaxLen
        /\ \E ch \in Alphabet : text' = text \o ch
        /\ Emit(<<text'>>)

RECURSIVE Cut(_, _, _)
Cut(t, i, cur) == IF i > Len(t) THEN <<cur>>
                  ELSE IF Ch(t, i) = "|" THEN <<cur>> \o Cut(t, i + 1, "")
                  ELSE Cut(t, i + 1, cur \o Ch(t, i))
Keys == Cut(text, 1, "")
RoundTrip == (\A i \in 1 .. Len(Keys) : GoodKey(Keys[i])) => TokensOf(FormatKeys(Keys)) = Keys
NoEmpty == \A i \in 1 .. Len(TokensOf(text)) : TokensOf(text)[i] # ""
AllLetters == Letters(Cat(TokensOf(text)), 1) = Letters(text, 1)
=============================================================================
