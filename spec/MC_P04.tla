------------------------------- MODULE MC_P04 -------------------------------
(* File names grown piece by piece, tried against the built-in readers and   *)
(* a custom reader registered for further suffixes.                          *)
EXTENDS Formats, McKit
CONSTANTS MaxPieces
Pieces == {"a", ".", "X", ".xes", ".XES", ".xez", ".gz", ".Gz", ".mxml", ".xml", ".mXmL", "xes", "mxml.gz"}
VARIABLES name, n
Init == name = "" /\ n = 0
Next == /\ n < MaxPieces
        /\ \E p \in Pieces : name' = name \o p
        /\ n' = n + 1
        /\ Emit(<<name'>>)
AtMostOne == Cardinality(Claimants(name)) <= 1
BareSuffix == \A r \in Readers : name \in SuffixesOf[r] => Claimants(name) \subseteq (Readers \ {r})
OneAnswer == \A res \in [Readers -> {"a", "b", "fail"}] : Cardinality(Universal(Claimants(name), res)) = 1
=============================================================================
