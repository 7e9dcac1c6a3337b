------------------------------- MODULE Tr_P28 -------------------------------
(* begin: the global mappings that come with the library and their aliases.  *)
EXTENDS TraceKit, NameMaps
TInit(case) == Start
TStep(case, s, e) ==
  LET n == CASE e.op = "begin" -> [map |-> [i \in 1 .. Len(e.maps) |-> [name |-> e.maps[i].name, al |-> e.maps[i].al]],
                                   glob |-> [x \in {e.maps[i].name : i \in 1 .. Len(e.maps)} |-> CHOOSE i \in 1 .. Len(e.maps) : e.maps[i].name = x]]
             [] e.op = "reg" -> Reg(s, e.n, e.k, e.a)
             [] e.op = "regat" -> RegAt(s, e.i, e.k, e.a)
             [] e.op = "get" -> Made(s, e.n)
             [] e.op = "apart" -> Apart(s, e.n)
             [] e.op = "quiet" -> Made(s, e.n)
             [] e.op = "quietreg" -> Reg(s, e.n, e.k, e.a)
             [] e.op = "ask" -> s
  IN  IF e.op \in {"quiet", "quietreg"} THEN Res(n, {}) ELSE Res(n, Show(n, e.shown) \cup IF e.op = "begin" THEN Clause("standard mapping", "EN" \in DOMAIN n.glob /\ e.std = n.glob["EN"]) ELSE {}
             \cup IF e.op = "get" THEN Clause("the mapping asked for", e.got = n.glob[e.n]) ELSE {})
=============================================================================
