------------------------------- MODULE MC_P38 -------------------------------
(* A log of two cells and an asker with three questions.  The system under   *)
(* the contract may keep an answer, as long as it is thrown away when a cell *)
(* it read changes: Kept is such an implementation, and the contract (memo)  *)
(* is shown to be what it keeps.  Every history of looks and changes is      *)
(* replayed in the real code.                                                *)
EXTENDS Looking, McKit
CONSTANTS MaxOps
VARIABLES cells, kept, memo, last, hist
vars == <<cells, kept, memo, last, hist>>
Qs == 1 .. 3
\* what a question reads: the first cell, the second, both
Reads(q) == IF q = 3 THEN {1, 2} ELSE {q}
Answer(s, q) == [i \in Reads(q) |-> s[i]]
None == [i \in {} |-> 0]
Init == cells = [i \in 1 .. 2 |-> 0] /\ kept = [q \in Qs |-> None] /\ memo = NoMemo /\ last = [q |-> 0, a |-> None, s |-> cells] /\ hist = <<>>
Look(q) == LET a == IF kept[q] # None THEN kept[q] ELSE Answer(cells, q)
           IN /\ kept' = [kept EXCEPT ![q] = a]
              /\ memo' = Learn(memo, cells, q, a)
              /\ last' = [q |-> q, a |-> a, s |-> cells]
              /\ UNCHANGED cells
              /\ hist' = Append(hist, <<"look", q>>)
Edit(i) == /\ cells' = [cells EXCEPT ![i] = 1 - @]
           /\ kept' = [q \in Qs |-> IF i \in Reads(q) THEN None ELSE kept[q]]
           /\ UNCHANGED <<memo, last>>
           /\ hist' = Append(hist, <<"edit", i>>)
Next == /\ Len(hist) < MaxOps
        /\ (\E q \in Qs : Look(q)) \/ (\E i \in 1 .. 2 : Edit(i))
        /\ Emit(hist')
\* the memo is a restriction of the answer function: no answer ever contradicts it
Functional == \A p \in DOMAIN memo : memo[p] = Answer(p[1], p[2])
Fresh == last.q # 0 => last.a = Answer(last.s, last.q)
Untouched == [][(\E q \in Qs : hist' = Append(hist, <<"look", q>>)) => cells' = cells]_vars
NeverContradicts == [][\A p \in DOMAIN memo : p \in DOMAIN memo' /\ memo'[p] = memo[p]]_vars
=============================================================================
