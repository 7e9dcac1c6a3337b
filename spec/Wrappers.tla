------------------------------ MODULE Wrappers ------------------------------
(* P31: extended events.  el: the events' attribute maps; w: the event each  *)
(* wrapper wraps.                                                            *)
EXTENDS Accessors
Wrap(s, i) == [s EXCEPT !.w = Append(@, i)]
SetBy(s, n, a, val, tx) == [s EXCEPT !.el[s.w[n]] = Assign(@, a, val, tx)]
Get(s, n, a, tx) == Extract(s.el[s.w[n]], a, tx)
\* a copy of the event, of its own, and its wrapper
Clone(s, n) == [el |-> Append(s.el, s.el[s.w[n]]), w |-> Append(s.w, Len(s.el) + 1)]
=============================================================================
