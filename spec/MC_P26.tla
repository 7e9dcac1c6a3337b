------------------------------- MODULE MC_P26 -------------------------------
(* Two elements; one accessor of each kind (two that share an attribute),    *)
(* two good values and one to be ignored for each; assignments, removals,    *)
(* changes of the stored attribute itself.                                   *)
EXTENDS Accessors, McKit
CONSTANTS MaxOps
VARIABLES el, hist
vars == <<el, hist>>
view == <<el, Len(hist)>>
As == {"name", "transition", "standard", "amount", "level", "length", "parent", "refs", "stamp"}
Tx == [x \in {"sa", "scomplete", "s", "si1", "sq r", "sunknown"} |->
         [t |-> x, l |-> x, w |-> IF x = "sq r" THEN <<"q", "r">> ELSE IF x = "s" THEN <<>> ELSE <<SubSeq(x, 2, Len(x))>>]]
Val(a, n) == LET mode == Accessor[a].mode IN
  [v |-> CASE mode \in {"text", "trim", "standard"} -> (IF n = 0 THEN (IF mode = "standard" THEN "s" ELSE None) ELSE <<"sa", "scomplete">>[n])
           [] mode \in {"positive", "natural"} -> (IF n = 0 THEN "i-2" ELSE <<"i1", "i2">>[n])
           [] mode = "optional id" -> (IF n = 0 THEN None ELSE <<"u1", "u2">>[n])
           [] OTHER -> "",
   d |-> <<n>>, sign |-> IF n = 0 THEN -1 ELSE 1, refs |-> IF n = 0 THEN <<>> ELSE <<<<"q", "r">>, <<"a">>>>[n]]
Init == el = <<NoMap, NoMap>> /\ hist = <<>>
Do(h) == Len(hist) < MaxOps /\ hist' = Append(hist, h) /\ Emit(hist')
Give == \E i \in 1 .. 2, a \in As, n \in 0 .. 2 : el' = [el EXCEPT ![i] = Assign(@, a, Val(a, n), Tx)] /\ Do(<<"assign", i, a, n>>)
Take == \E i \in 1 .. 2, a \in {"level", "length", "parent"} : el' = [el EXCEPT ![i] = Remove(@, a)] /\ Do(<<"remove", i, a>>)
Poke == \E i \in 1 .. 2, a \in {"name", "level"} : /\ Has(el[i], a)
                                                   /\ el' = [el EXCEPT ![i][Key(a)].v = IF a = "name" THEN "sunknown" ELSE "i1"] /\ Do(<<"poke", i, a>>)
Next == Give \/ Take \/ Poke
LastOp == hist'[Len(hist')]
Taken(a, n) == n # 0 \/ Accessor[a].mode \in {"standard", "time"}
Want(a, n) == LET v == Val(a, n) IN
  CASE Accessor[a].mode = "words" -> v.refs [] Accessor[a].mode = "time" -> v.d [] Accessor[a].mode = "standard" -> Decode(v.v) [] OTHER -> v.v
ReadBack == [][LastOp[1] = "assign" /\ Taken(LastOp[3], LastOp[4]) => Extract(el'[LastOp[2]], LastOp[3], Tx) = Want(LastOp[3], LastOp[4])]_vars
Ignored == [][LastOp[1] = "assign" /\ ~Taken(LastOp[3], LastOp[4]) /\ LastOp[3] # "parent" => el' = el]_vars
OthersStay == [][\A i \in 1 .. 2, a \in As : (i # LastOp[2] \/ Key(a) # Key(LastOp[3])) => Extract(el'[i], a, Tx) = Extract(el[i], a, Tx)]_vars
AbsentAfterRemoval == [][LastOp[1] = "remove" => Extract(el'[LastOp[2]], LastOp[3], Tx) \in {None, "i-1"}]_vars
StandardKnown == \A i \in 1 .. 2 : Extract(el[i], "standard", Tx) = None \/ Extract(el[i], "standard", Tx) \in {"s" \o x : x \in Transitions}
Typed == \A i \in 1 .. 2, a \in As : Has(el[i], a) => el[i][Key(a)].t = Accessor[a].t /\ el[i][Key(a)].x = Accessor[a].x
=============================================================================
