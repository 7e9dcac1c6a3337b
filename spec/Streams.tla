------------------------------ MODULE Streams ------------------------------
(* P37: what comes of reading and writing when the stream breaks.  A source  *)
(* delivers the first bytes of a document: all of them, or up to where it    *)
(* was cut, or up to where it fails; the document is complete at byte end    *)
(* (its last closing tag; compressed, its last byte).  A sink takes bytes    *)
(* up to where it fails.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, Clauses
\* the outcomes a reader may have: delivered bytes, whether the source failed
ReadOut(delivered, end, failed) ==
  IF delivered < end THEN {"error"} ELSE IF failed THEN {"error", "log"} ELSE {"log"}
\* a writer may have: whether the sink failed
WriteOut(failed) == IF failed THEN {"error"} ELSE {"done"}
Min2(a, b) == IF a < b THEN a ELSE b
=============================================================================
