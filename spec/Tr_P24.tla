------------------------------- MODULE Tr_P24 -------------------------------
(* st: the name mappings; e.doc: the definition in the file; e.ext: the      *)
(* extension; e.names: every mapping, language -> key -> name.               *)
EXTENDS TraceKit, ExtFile
TInit(case) == NoNames
\* a mapping without names need not exist
Bare(m) == [x \in {y \in DOMAIN m : DOMAIN m[y] # {}} |-> m[x]]
Shown(s, e) == Clause("mappings", Bare(e.names) = Bare(s)) \cup Clause("mapping names", {e.langs[i] : i \in 1 .. Len(e.langs)} = DOMAIN s /\ Len(e.langs) = Cardinality(DOMAIN s))
TStep(case, s, e) ==
  CASE e.op = "begin" -> Res(e.names, {})
    [] e.op = "parse" -> LET n == NameAll(s, Aliases(e.doc, 1), 1)
                         IN  Res(n, ShowExt(e.doc, e.ext) \cup Shown(n, e) \cup Clause("fresh extension", e.fresh) \cup Clause("fresh identities", e.ids))
=============================================================================
