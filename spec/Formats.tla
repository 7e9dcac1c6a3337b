------------------------------- MODULE Formats -------------------------------
(* P04: which reader claims which file name, and what the universal reader   *)
(* answers.  Letter case is folded for the ASCII letters of the suffixes.    *)
EXTENDS Integers, Sequences, FiniteSets

LowerOf == [x \in {"X", "E", "S", "G", "Z", "M", "L"} |->
             CASE x = "X" -> "x" [] x = "E" -> "e" [] x = "S" -> "s" [] x = "G" -> "g"
               [] x = "Z" -> "z" [] x = "M" -> "m" [] x = "L" -> "l"]
Lower(ch) == IF ch \in DOMAIN LowerOf THEN LowerOf[ch] ELSE ch
EndsIC(name, suffix) ==
  /\ Len(name) > Len(suffix)
  /\ \A i \in 1 .. Len(suffix) :
       LET n == Len(name) - Len(suffix) + i
       IN  Lower(SubSeq(name, n, n)) = SubSeq(suffix, i, i)

Readers == {"xes", "xesgz", "mxml", "mxmlgz"}
SuffixesOf == [r \in Readers |-> CASE r = "xes"    -> {".xes"}
                                   [] r = "xesgz"  -> {".xes.gz", ".xez"}
                                   [] r = "mxml"   -> {".mxml", ".xml"}
                                   [] r = "mxmlgz" -> {".mxml.gz"}]
Claims(r, name) == \E s \in SuffixesOf[r] : EndsIC(name, s)
Claimants(name) == {r \in Readers : Claims(r, name)}

(* The universal reader over registered readers: res[r] is what reader r     *)
(* makes of the content, or "fail".                                          *)
Universal(claiming, res) ==
  LET able == {r \in claiming : res[r] # "fail"}
  IN  IF able = {} THEN {"fail"} ELSE {res[r] : r \in able}
=============================================================================
