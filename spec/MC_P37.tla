------------------------------- MODULE MC_P37 -------------------------------
(* One reader and one writer, used again and again.  An attempt to read is   *)
(* given a source of N blocks of which the last is white space, cut after    *)
(* some and failing at some read (0: never); it reads a block or two at a    *)
(* time until the end or the failure.  An attempt to write gives N blocks to *)
(* a sink failing at some write.                                             *)
EXTENDS Streams, McKit
CONSTANTS MaxOps
VARIABLES job, pos, calls, out, hist
vars == <<job, pos, calls, out, hist>>
N == 4
End == 3
Idle == [kind |-> "none", cut |-> 0, fault |-> 0]
Init == job = Idle /\ pos = 0 /\ calls = 0 /\ out = "none" /\ hist = <<>>
Begin == /\ job = Idle /\ Len(hist) < MaxOps
         /\ \E c \in 0 .. N, f \in 0 .. 2, k \in {"read", "write"} :
              /\ k = "write" => c = N
              /\ job' = [kind |-> k, cut |-> c, fault |-> f]
              /\ hist' = Append(hist, <<k, c, f>>)
         /\ pos' = 0 /\ calls' = 0 /\ out' = "run"
Fails == job.fault # 0 /\ calls + 1 = job.fault
Step == /\ out = "run"
        /\ calls' = calls + 1
        /\ IF Fails THEN out' = "error" /\ UNCHANGED pos
           ELSE IF pos = job.cut THEN UNCHANGED pos /\ out' = IF job.kind = "write" THEN "done" ELSE IF pos >= End THEN "log" ELSE "error"
           ELSE \E n \in 1 .. 2 : pos' = Min2(pos + n, job.cut) /\ UNCHANGED out
        /\ UNCHANGED <<job, hist>>
Finish == out \in {"log", "error", "done"} /\ job' = Idle /\ UNCHANGED <<pos, calls, out, hist>> /\ job # Idle /\ Emit(hist)
Next == Begin \/ Step \/ Finish
\* what is taken for a log is all of it
NeverPartial == out = "log" => pos >= End
FailureTold == (job # Idle /\ job.fault # 0 /\ calls = job.fault /\ job.kind = "write") => out # "done"
Possible == job # Idle /\ out \in {"log", "error"} /\ job.kind = "read" => out \in ReadOut(pos, End, job.fault # 0 /\ calls = job.fault)
WholeWorks == job = [kind |-> "read", cut |-> N, fault |-> 0] => out # "error"
\* a new attempt is not touched by the former ones
Afresh == [][job = Idle /\ job' # Idle => pos' = 0 /\ out' = "run"]_vars
=============================================================================
