----------------------------- MODULE Accessors -----------------------------
(* P26, P31: the accessors of the standard extensions.  An element is its    *)
(* attribute map: key -> attribute [k, t, v, d, x, m, c].  A value given to  *)
(* an accessor is [v, d, sign, refs].  tx: for each text its trimmed form t, *)
(* the trimmed text in lower case l and its words w.                         *)
EXTENDS Integers, Sequences, FiniteSets, Clauses
Row(k, t, mode, x) == [k |-> k, t |-> t, mode |-> mode, x |-> x]
Accessor == [
  name       |-> Row("concept:name", "literal", "text", "concept"),
  instance   |-> Row("concept:instance", "literal", "text", "concept"),
  resource   |-> Row("org:resource", "literal", "text", "org"),
  role       |-> Row("org:role", "literal", "text", "org"),
  group      |-> Row("org:group", "literal", "text", "org"),
  currency   |-> Row("cost:currency", "literal", "text", "cost"),
  driver     |-> Row("cost:driver", "literal", "text", "cost"),
  type       |-> Row("cost:type", "literal", "text", "cost"),
  total      |-> Row("cost:total", "continuous", "positive", "cost"),
  amount     |-> Row("cost:amount", "continuous", "positive", "cost"),
  id         |-> Row("identity:id", "id", "id", "identity"),
  model      |-> Row("lifecycle:model", "literal", "trim", "lifecycle"),
  transition |-> Row("lifecycle:transition", "literal", "trim", "lifecycle"),
  standard   |-> Row("lifecycle:transition", "literal", "standard", "lifecycle"),
  level      |-> Row("micro:level", "discrete", "positive", "micro"),
  length     |-> Row("micro:length", "discrete", "natural", "micro"),
  parent     |-> Row("micro:parentId", "id", "optional id", "micro"),
  refs       |-> Row("semantic:modelReference", "literal", "words", "semantic"),
  uris       |-> Row("semantic:modelReference", "literal", "words", "semantic"),
  stamp      |-> Row("time:timestamp", "timestamp", "time", "time") ]
Transitions == {"schedule", "assign", "withdraw", "reassign", "start", "suspend", "resume", "pi_abort", "ate_abort", "complete", "autoskip", "manualskip", "unknown"}
Decode(low) == IF \E x \in Transitions : low = "s" \o x THEN low ELSE "sunknown"
None == "N"
NoMap == [x \in {} |-> 0]
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
RECURSIVE Join(_, _)
Join(w, i) == IF i > Len(w) THEN "" ELSE (IF i > 1 THEN " " ELSE "") \o w[i] \o Join(w, i + 1)
Key(a) == Accessor[a].k
Fresh(a, v, d) == LET r == Accessor[a] IN [k |-> r.k, t |-> r.t, v |-> v, d |-> d, x |-> r.x, m |-> NoMap, c |-> <<>>]
\* the element after an assignment
Assign(m, a, val, tx) ==
  LET put(v, d) == Set(m, Key(a), Fresh(a, v, d))
      mode == Accessor[a].mode
  IN  CASE mode = "text" -> IF val.v = None \/ tx[val.v].t = "s" THEN m ELSE put(val.v, <<>>)
        [] mode = "trim" -> IF val.v = None \/ tx[val.v].t = "s" THEN m ELSE put(tx[val.v].t, <<>>)
        [] mode = "standard" -> put(Decode(tx[val.v].l), <<>>)
        [] mode = "positive" -> IF val.v = None \/ val.sign <= 0 THEN m ELSE put(val.v, <<>>)
        [] mode = "natural" -> IF val.sign < 0 THEN m ELSE put(val.v, <<>>)
        [] mode = "id" -> IF val.v = None THEN m ELSE put(val.v, <<>>)
        [] mode = "optional id" -> IF val.v = None THEN Drop(m, Key(a)) ELSE put(val.v, <<>>)
        [] mode = "words" -> IF val.refs = <<>> THEN m ELSE put("s" \o Join(val.refs, 1), <<>>)
        [] mode = "time" -> put("d", val.d)
Remove(m, a) == Drop(m, Key(a))
Has(m, a) == Key(a) \in DOMAIN m
\* what extracting answers: a tagged value, words for references, fields for times
Extract(m, a, tx) ==
  LET mode == Accessor[a].mode
      v == m[Key(a)].v
  IN  CASE mode = "words" -> IF Has(m, a) THEN tx[v].w ELSE <<>>
        [] mode = "time" -> IF Has(m, a) /\ m[Key(a)].t = "timestamp" THEN m[Key(a)].d ELSE <<>>
        [] a \in {"level", "length"} -> IF Has(m, a) THEN v ELSE "i-1"
        [] mode = "standard" -> IF Has(m, a) THEN Decode(tx[v].l) ELSE None
        [] OTHER -> IF Has(m, a) THEN v ELSE None
UsesStandardModel(m, tx) == Has(m, "model") /\ tx[m["lifecycle:model"].v].t = "sstandard"
\* got: accessor -> answer
Answers(m, got, tx) == {a \in DOMAIN got : got[a] # Extract(m, a, tx)}
=============================================================================
