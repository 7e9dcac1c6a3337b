------------------------------ MODULE Threads ------------------------------
(* P39: threads that work on logs of their own.  What a job gives is a       *)
(* function of the job: alone is the map from jobs to the answers they give  *)
(* when nothing else runs.  What all threads use together are the single     *)
(* instances, each made once, by the first thread that asks for it.          *)
EXTENDS Integers, Sequences, FiniteSets, Clauses
\* one job's answer
Undisturbed(alone, job, a) == job \in DOMAIN alone /\ alone[job] = a
\* the identities seen of one single instance
Single(ids) == \A i, j \in DOMAIN ids : ids[i] = ids[j]
Distinct(ids) == \A i, j \in DOMAIN ids : i # j => ids[i] # ids[j]
=============================================================================
