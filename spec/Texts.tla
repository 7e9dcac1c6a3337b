------------------------------- MODULE Texts -------------------------------
(* P35: the text of an object.  Attributes are records [k, t, v, d, c] as in *)
(* XesDoc; a path is the children's positions from the root.  Texts are      *)
(* encoded letter by letter, so the text of parts in a row is their texts    *)
(* in a row.                                                                 *)
EXTENDS Temporal, FiniteSets, Clauses
Letters == <<"a", "b", "c", "d", "e", "f">>
Capitals == <<"A", "B", "C", "D", "E", "F">>
Upper(x) == IF \E i \in 1 .. 6 : Letters[i] = x THEN Capitals[CHOOSE i \in 1 .. 6 : Letters[i] = x] ELSE x
RECURSIVE UpperText(_)
UpperText(t) == IF t = "" THEN "" ELSE UpperText(SubSeq(t, 1, Len(t) - 1)) \o Upper(SubSeq(t, Len(t), Len(t)))
Rest(t) == SubSeq(t, 2, Len(t))
Collection(a) == a.t \in {"list", "container"}
RECURSIVE Joined(_, _)
Joined(parts, sep) == IF parts = <<>> THEN "" ELSE IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o sep \o Joined(Tail(parts), sep)
\* the text of an attribute from the texts of its children
Whole(keys, texts) == "[" \o Joined([i \in 1 .. Len(keys) |-> keys[i] \o ":" \o texts[i]], ",") \o "]"
Leaf(a) == CASE a.t = "id" -> UpperText(Rest(a.v)) [] OTHER -> Rest(a.v)
RECURSIVE Text(_)
Text(a) == IF Collection(a) THEN Whole([i \in 1 .. Len(a.c) |-> a.c[i].k], [i \in 1 .. Len(a.c) |-> Text(a.c[i])]) ELSE Leaf(a)
\* changing the attribute at a path
RECURSIVE SetAt(_, _, _)
SetAt(a, path, b) == IF path = <<>> THEN [a EXCEPT !.v = b.v, !.d = b.d] ELSE [a EXCEPT !.c[path[1]] = SetAt(@, Tail(path), b)]
RECURSIVE AddAt(_, _, _)
AddAt(a, path, b) == IF path = <<>> THEN [a EXCEPT !.c = Append(@, b)] ELSE [a EXCEPT !.c[path[1]] = AddAt(@, Tail(path), b)]

\* the shown text of an attribute: o.text, o.c for the children
OffOf(f) == IF f[8] = Naive THEN 0 ELSE f[8]
StampSays(d, t) == Denotes(t) /\ ToMilli(InstantOf(FieldsOf(t))) = ToMilli(InstantOf(d)) /\ FieldsOf(t)[8] = OffOf(d)
RECURSIVE Says(_, _)
Says(a, o) == IF Collection(a) THEN /\ Len(o.c) = Len(a.c)
                                    /\ \A i \in 1 .. Len(a.c) : Says(a.c[i], o.c[i])
                                    /\ o.text = Whole([i \in 1 .. Len(a.c) |-> a.c[i].k], [i \in 1 .. Len(a.c) |-> o.c[i].text])
              ELSE IF a.t = "timestamp" THEN StampSays(a.d, o.text) ELSE o.text = Leaf(a)

-----------------------------------------------------------------------------
\* a mapping as lines: its name, then one line per alias, in any order
Set2(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
MapLines(name, al, lines) ==
  /\ Len(lines) = 1 + Cardinality(DOMAIN al)
  /\ lines[1] = "Attribute name map: " \o name
  /\ {lines[i] : i \in 2 .. Len(lines)} = {k \o " -> " \o al[k] : k \in DOMAIN al}
\* the global mapping: its maps in any order, an empty line after each
RECURSIVE MapsFrom(_, _)
MapsFrom(maps, lines) ==
  IF DOMAIN maps = {} THEN lines = <<"">>
  ELSE \E n \in DOMAIN maps :
         LET z == 1 + Cardinality(DOMAIN maps[n])
         IN  /\ Len(lines) > z + 1
             /\ MapLines(n, maps[n], SubSeq(lines, 1, z))
             /\ lines[z + 1] = ""
             /\ MapsFrom([m \in DOMAIN maps \ {n} |-> maps[m]], SubSeq(lines, z + 2, Len(lines)))
GlobalLines(maps, lines) == /\ Len(lines) > 4
                            /\ SubSeq(lines, 1, 4) = <<"Global attribute name map.", "", "Contained maps:", "">>
                            /\ MapsFrom(maps, SubSeq(lines, 5, Len(lines)))

-----------------------------------------------------------------------------
\* a date as plain text
Digits(n, w) == LET D == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
                    P == <<1, 10, 100, 1000, 10000, 100000>>
                IN  Joined([i \in 1 .. w |-> D[((n \div P[w + 1 - i]) % 10) + 1]], "")
Abs(n) == IF n < 0 THEN -n ELSE n
DateText(f) == IF f = <<>> THEN "None"
               ELSE Digits(f[1], 4) \o "-" \o Digits(f[2], 2) \o "-" \o Digits(f[3], 2) \o " " \o Digits(f[4], 2) \o ":" \o Digits(f[5], 2) \o ":" \o Digits(f[6], 2)
                    \o (IF f[7] = 0 THEN "" ELSE "." \o Digits(f[7], 6))
                    \o (IF f[8] = Naive THEN "" ELSE (IF f[8] < 0 THEN "-" ELSE "+") \o Digits(Abs(f[8]) \div 60, 2) \o ":" \o Digits(Abs(f[8]) % 60, 2))
BoundsText(first, last) == DateText(first) \o " -- " \o DateText(last)
ClassesText(name) == "Event classes defined by " \o name
=============================================================================
