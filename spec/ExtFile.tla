------------------------------ MODULE ExtFile ------------------------------
(* P24: extension definition files.  A definition is [name, prefix, uri,     *)
(* secs], secs a sequence of <<section, attributes>>, an attribute           *)
(* <<type, key, aliases>>, an alias <<language, name>>.                      *)
EXTENDS Temporal, FiniteSets, Clauses
Sections == <<"log", "trace", "event", "meta">>
TypeOf(t) == CASE t = "string" -> "literal" [] t = "date" -> "timestamp" [] t = "int" -> "discrete" [] t = "float" -> "continuous"
               [] t = "boolean" -> "boolean" [] t = "id" -> "id"
DefaultOf(t) == CASE t = "string" -> "sDEFAULT" [] t = "date" -> "d" [] t = "int" -> "i0" [] t = "float" -> "f0.0" [] t = "boolean" -> "bfalse" [] t = "id" -> "u"
Tags == {"string", "date", "int", "float", "boolean", "id"}
Key(d, a) == d.prefix \o ":" \o a[2]
Range(q) == {q[i] : i \in 1 .. Len(q)}
\* the attributes a section defines: <<type, key>>
Defined(d, sec) == UNION {{<<TypeOf(a[1]), Key(d, a)>> : a \in Range(d.secs[i][2])} : i \in {j \in 1 .. Len(d.secs) : d.secs[j][1] = sec}}
\* the aliases in document order: <<language, key, name>>
RECURSIVE OfAttr(_, _, _)
OfAttr(d, a, i) == IF i > Len(a[3]) THEN <<>> ELSE <<<<a[3][i][1], Key(d, a), a[3][i][2]>>>> \o OfAttr(d, a, i + 1)
RECURSIVE OfSec(_, _, _)
OfSec(d, s, i) == IF i > Len(s[2]) THEN <<>> ELSE OfAttr(d, s[2][i], 1) \o OfSec(d, s, i + 1)
RECURSIVE Aliases(_, _)
Aliases(d, i) == IF i > Len(d.secs) THEN <<>> ELSE OfSec(d, d.secs[i], 1) \o Aliases(d, i + 1)
\* the name mappings: language -> key -> name
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NoNames == [x \in {} |-> ""]
Name(m, lang, key, n) == Set(m, lang, Set(IF lang \in DOMAIN m THEN m[lang] ELSE NoNames, key, n))
RECURSIVE NameAll(_, _, _)
NameAll(m, as, i) == IF i > Len(as) THEN m ELSE NameAll(Name(m, as[i][1], as[i][2], as[i][3]), as, i + 1)

\* what a parsed extension shows: o.secs[n]: attributes [t, k, v, d, own]
ShowSection(d, n, o) ==
  LET S == Defined(d, Sections[n])
      q == o.secs[n]
  IN  Clause("attributes of " \o Sections[n], Len(q) = Cardinality(S) /\ {<<q[i].t, q[i].k>> : i \in 1 .. Len(q)} = S)
      \cup Clause("default values", \A i \in 1 .. Len(q) : \E t \in Tags : TypeOf(t) = q[i].t /\
                                       (IF t = "id" THEN q[i].v # "" ELSE q[i].v = DefaultOf(t)) /\ (t = "date" => InstantOf(q[i].d) = <<0, 0, 0>>))
      \cup Clause("attribute's extension", \A i \in 1 .. Len(q) : q[i].own)
      \cup Clause("nothing nested", \A i \in 1 .. Len(q) : q[i].bare)
ShowExt(d, o) == Clause("name", o.name = d.name) \cup Clause("prefix", o.prefix = d.prefix) \cup Clause("uri", o.uri = d.uri)
                 \cup UNION {ShowSection(d, n, o) : n \in 1 .. 4}
=============================================================================
