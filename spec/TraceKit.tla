------------------------------ MODULE TraceKit ------------------------------
(* Trace validation.  The driver runs the real code and writes one case per  *)
(* line: the events it performed with what the code answered.  Each case is  *)
(* a behaviour: TLC starts one chain per case and lets the machine of the    *)
(* property (CStep, written over the same operators that the model checker   *)
(* explores) take each event.  CStep answers with the machine's next state   *)
(* and the names of the clauses the observation breaks.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Clauses

CONSTANTS CInit(_),       \* case -> initial machine state
          CStep(_, _, _)  \* case, machine state, event -> [st, bad]

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, st
kitVars == <<c, l, st>>

Judge(case, s, e) ==
  IF e.op = "crash" THEN [st |-> s, bad |-> {"crash"}] ELSE CStep(case, s, e)

KitInit == /\ c \in 1 .. Len(Cases)
           /\ l = 0
           /\ st = CInit(Cases[c])

KitNext == /\ l < Len(Cases[c].ev)
           /\ LET r == Judge(Cases[c], st, Cases[c].ev[l + 1])
              IN  /\ c' = c
                  /\ st' = r.st
                  /\ l' = IF r.bad = {} THEN l + 1 ELSE Len(Cases[c].ev) + 1
                  /\ IF r.bad = {} THEN TRUE
                     ELSE PrintT("VERDICT " \o ToJson([id |-> Cases[c].id, at |-> l + 1, bad |-> r.bad]))

\* helpers shared by all machines
Ok(s) == [st |-> s, bad |-> {}]
Res(s, bad) == [st |-> s, bad |-> bad]
=============================================================================
