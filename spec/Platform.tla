------------------------------ MODULE Platform ------------------------------
(* P36: the platform and the folders kept on it.  dirs: the folders there    *)
(* are; files: path -> contents.  Paths are encoded texts relative to the    *)
(* scratch folder, "home/.OpenXES"; a backslash is %5c; there.               *)
EXTENDS Integers, Sequences, FiniteSets, Clauses
Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Windows(os) == Starts(os, "win32")
Mac(os) == Starts(os, "darwin")
Linux(os) == Starts(os, "linux")
Known(os) == Windows(os) \/ Mac(os) \/ Linux(os) \/ Starts(os, "freebsd")
Unix(os) == Known(os) /\ ~Windows(os)
Sep(os) == IF Windows(os) THEN "%5c;" ELSE "/"
Support(os, home) == home \o (IF Windows(os) THEN "%5c;OpenXES" ELSE IF Mac(os) THEN "/Library/Application Support/OpenXES" ELSE "/.OpenXES")
Cache(os, home) == Support(os, home) \o Sep(os) \o "ExtensionCache"
\* the folders a path lies in, and itself
Above(p) == {SubSeq(p, 1, i - 1) : i \in {j \in 2 .. Len(p) : SubSeq(p, j, j) = "/"}}
With(dirs, p) == dirs \cup Above(p) \cup {p}
SupportEff(s, os, home) == [s EXCEPT !.dirs = With(@, Support(os, home))]
CacheEff(s, os, home) == [s EXCEPT !.dirs = With(With(@, Support(os, home)), Cache(os, home))]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
WriteEff(s, p, v) == [s EXCEPT !.files = Put(@, p, v)]
Inside(p, d) == Starts(p, d \o "/")
DeleteEff(s, d) == [dirs |-> {x \in s.dirs : x # d /\ ~Inside(x, d)}, files |-> [p \in {x \in DOMAIN s.files : ~Inside(x, d)} |-> s.files[p]]]
=============================================================================
