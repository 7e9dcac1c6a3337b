------------------------------ MODULE Logging ------------------------------
(* P32: logging.  at: the listener of each logger (0: none; Default: the one *)
(* a logger begins with).  A switching listener sets its logger's listener   *)
(* to another one while it is told a message: then: listener -> the next     *)
(* (0: none), for those that do.                                             *)
EXTENDS Integers, Sequences, FiniteSets, Clauses
Default == 99
Debug == "DEBUG"
New(at) == Append(at, Default)
SetTo(at, i, l) == [at EXCEPT ![i] = l]
\* a message: who hears it, and the listener afterwards
Hears(at, i) == IF at[i] = 0 THEN <<>> ELSE <<at[i]>>
After(at, i, then) == IF at[i] \in DOMAIN then THEN [at EXCEPT ![i] = then[at[i]]] ELSE at
Weight(imp) == IF imp = "N" THEN "s" \o Debug ELSE imp
=============================================================================
