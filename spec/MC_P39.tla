------------------------------- MODULE MC_P39 -------------------------------
(* Two threads; each asks for single instances in its own order, the making  *)
(* of the second needs the first, as a manager needs its members.  Asking is *)
(* check, make, store under one lock that its owner may take again; a step   *)
(* on its own log adds to a private sum.  Every schedule is replayed in the  *)
(* real code by a scheduler that stops its threads between lines.            *)
EXTENDS Threads, McKit
CONSTANTS MaxSteps, Locked
Ts == {1, 2}
Jobs == [t \in Ts |-> IF t = 1 THEN <<"work", "get2", "work">> ELSE <<"get1", "work", "get2">>]
VARIABLES pc,      \* place in the job
          stack,   \* per thread: instances being asked for, with the stage of each
          owner, depth, inst, made, got, sum, hist
vars == <<pc, stack, owner, depth, inst, made, got, sum, hist>>
Cells == {1, 2}
Init == /\ pc = [t \in Ts |-> 1] /\ stack = [t \in Ts |-> <<>>] /\ owner = 0 /\ depth = 0
        /\ inst = [x \in Cells |-> 0] /\ made = 0 /\ got = [t \in Ts |-> [x \in Cells |-> {}]]
        /\ sum = [t \in Ts |-> 0] /\ hist = <<>>
Top(t) == stack[t][Len(stack[t])]
SetTop(t, f) == [stack EXCEPT ![t] = [i \in DOMAIN @ |-> IF i = Len(@) THEN f ELSE @[i]]]
Pop(t) == SubSeq(stack[t], 1, Len(stack[t]) - 1)
Done(t) == pc[t] > 3 /\ stack[t] = <<>>
Start(t) == /\ stack[t] = <<>> /\ pc[t] <= 3
            /\ pc' = [pc EXCEPT ![t] = @ + 1]
            /\ LET j == Jobs[t][pc[t]]
               IN  IF j = "work" THEN sum' = [sum EXCEPT ![t] = @ + pc[t]] /\ UNCHANGED stack
                   ELSE stack' = [stack EXCEPT ![t] = <<[x |-> IF j = "get1" THEN 1 ELSE 2, at |-> "enter", n |-> 0]>>] /\ UNCHANGED sum
            /\ UNCHANGED <<owner, depth, inst, made, got>>
Enter(t) == /\ stack[t] # <<>> /\ Top(t).at = "enter"
            /\ ~Locked \/ owner \in {0, t}
            /\ owner' = (IF Locked THEN t ELSE 0) /\ depth' = depth + 1
            /\ stack' = SetTop(t, [Top(t) EXCEPT !.at = "check"])
            /\ UNCHANGED <<pc, inst, made, got, sum>>
Check(t) == /\ stack[t] # <<>> /\ Top(t).at = "check"
            /\ stack' = SetTop(t, [Top(t) EXCEPT !.at = IF inst[Top(t).x] = 0 THEN (IF Top(t).x = 2 THEN "member" ELSE "make") ELSE "leave"])
            /\ UNCHANGED <<pc, owner, depth, inst, made, got, sum>>
Member(t) == /\ stack[t] # <<>> /\ Top(t).at = "member"
             /\ stack' = [stack EXCEPT ![t] = Append(SetTop(t, [Top(t) EXCEPT !.at = "make"])[t], [x |-> 1, at |-> "enter", n |-> 0])]
             /\ UNCHANGED <<pc, owner, depth, inst, made, got, sum>>
Make(t) == /\ stack[t] # <<>> /\ Top(t).at = "make"
           /\ made' = made + 1
           /\ stack' = SetTop(t, [Top(t) EXCEPT !.at = "store", !.n = made + 1])
           /\ UNCHANGED <<pc, owner, depth, inst, got, sum>>
Store(t) == /\ stack[t] # <<>> /\ Top(t).at = "store"
            /\ inst' = [inst EXCEPT ![Top(t).x] = Top(t).n]
            /\ stack' = SetTop(t, [Top(t) EXCEPT !.at = "leave"])
            /\ UNCHANGED <<pc, owner, depth, made, got, sum>>
Leave(t) == /\ stack[t] # <<>> /\ Top(t).at = "leave"
            /\ got' = [got EXCEPT ![t][Top(t).x] = @ \cup {inst[Top(t).x]}]
            /\ depth' = depth - 1 /\ owner' = (IF depth = 1 THEN 0 ELSE owner)
            /\ stack' = [stack EXCEPT ![t] = Pop(t)]
            /\ UNCHANGED <<pc, inst, made, sum>>
Step(t) == Start(t) \/ Enter(t) \/ Check(t) \/ Member(t) \/ Make(t) \/ Store(t) \/ Leave(t)
\* the schedule is kept up to the bound
Next == \E t \in Ts : Step(t) /\ hist' = (IF Len(hist) < MaxSteps THEN Append(hist, t) ELSE hist)
                      /\ IF Len(hist) + 1 = MaxSteps THEN Emit(hist') ELSE TRUE
Spec == Init /\ [][Next]_vars
OneInstance == \A x \in Cells : Cardinality(got[1][x] \cup got[2][x]) <= 1
MadeOnce == made <= 2
OwnWork == \A t \in Ts : Done(t) => sum[t] = (IF t = 1 THEN 4 ELSE 2)
NeverStuck == (\A t \in Ts : Done(t)) \/ \E t \in Ts : ENABLED Step(t)
Exclusive == owner # 0 => \A t \in Ts : t # owner => stack[t] = <<>> \/ Top(t).at = "enter"
=============================================================================
