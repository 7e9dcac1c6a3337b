------------------------------- MODULE MC_P25 -------------------------------
(* Two cache files, two extension URIs, a third file that is no definition:  *)
(* downloads that succeed or fail, files that age, get broken or replaced,   *)
(* registrations and loads in any order.                                     *)
EXTENDS Cache, McKit
CONSTANTS MaxOps
VARIABLES files, regs, loaded, hist
vars == <<files, regs, loaded, hist>>
view == <<files, regs, loaded, Len(hist)>>
Contents == << [good |-> TRUE, uri |-> "u1", name |-> "one"], [good |-> TRUE, uri |-> "u2", name |-> "two"],
               [good |-> TRUE, uri |-> "u1", name |-> "other one"], [good |-> FALSE, uri |-> "", name |-> ""] >>
Defs == {"A", "B"}
Init == files = [x \in {} |-> 0] /\ regs = <<>> /\ loaded = FALSE /\ hist = <<>>
Do(h) == Len(hist) < MaxOps /\ hist' = Append(hist, h) /\ Emit(hist')
Fetch == \E n \in Defs, c \in 1 .. 4, ok \in BOOLEAN : /\ files' = Download(files, n, c, ok) /\ UNCHANGED regs /\ loaded' = FALSE
                                                       /\ (~ok => c = 1) /\ Do(<<"fetch", n, c, IF ok THEN 1 ELSE 0>>)
Age == \E n \in DOMAIN files : ~files[n].stale /\ files' = [files EXCEPT ![n].stale = TRUE] /\ UNCHANGED regs /\ loaded' = FALSE /\ Do(<<"age", n>>)
Lay == \E n \in Defs \cup {"other"}, c \in {2, 4}, o \in BOOLEAN : files' = Put(files, n, c, o) /\ UNCHANGED regs /\ loaded' = FALSE /\ Do(<<"lay", n, c, IF o THEN 1 ELSE 0>>)
Reg == \E u \in {"u1", "u2"} : regs' = Register(regs, [uri |-> u, name |-> "mine", obj |-> Len(hist)]) /\ UNCHANGED files /\ loaded' = FALSE /\ Do(<<"reg", u>>)
\* any order of registering what is new, any definition of it
Load == /\ files' = Drop(files, Old(files, Defs)) /\ loaded' = TRUE
        /\ LET N == News(regs, files, Defs, Contents)
               O == {o \in Offered(files, Defs, Contents) : o.uri \in N}
           IN  \E q \in UNION {[1 .. n -> O] : n \in 0 .. 2} :
                 /\ regs' = regs \o [i \in 1 .. Len(q) |-> [uri |-> q[i].uri, name |-> q[i].name, obj |-> 100 + i]]
                 /\ Loaded(regs, files, Defs, Contents, regs') = {}
        /\ Do(<<"load">>)
Next == Fetch \/ Age \/ Lay \/ Reg \/ Load
OncePerUri == Cardinality(Known(regs)) = Len(regs)
NoStaleLeft == loaded => /\ Old(files, Defs) = {}
                         /\ \A n \in DOMAIN files \cap Defs : Contents[files[n].c].good => Contents[files[n].c].uri \in Known(regs)
\* only a registration replaces, and only what has its URI
Kept == [][\A i \in 1 .. Len(regs) : regs'[i] = regs[i] \/ (hist'[Len(hist')][1] = "reg" /\ regs'[i].uri = regs[i].uri)]_vars
FailureHarmless == [][hist'[Len(hist')][1] = "fetch" /\ hist'[Len(hist')][4] = 0 => files' = files /\ regs' = regs]_vars
OthersStay == [][(\E n \in DOMAIN files : n = "other") => "other" \in DOMAIN files']_vars
=============================================================================
