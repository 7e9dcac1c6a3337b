------------------------------- MODULE McKit -------------------------------
(* History emission for the model-checked machines: hist records the         *)
(* operations taken so far; the state space is explored under VIEW st, and   *)
(* every transition prints the history that exercises it.  The runner        *)
(* replays these histories in the real code.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Emit(h) == PrintT("HIST " \o ToJson(h))
=============================================================================
