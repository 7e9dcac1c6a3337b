------------------------------- MODULE MC_P36 -------------------------------
(* Asking for the folders, storing in them and losing them, in any order, on *)
(* each platform.                                                            *)
EXTENDS Platform, McKit
CONSTANTS MaxOps
VARIABLES s, os, hist
vars == <<s, os, hist>>
view == <<s, os, Len(hist)>>
OSs == {"win32", "darwin", "linux", "freebsd13", "aix"}
Init == s = [dirs |-> {"home"}, files |-> [p \in {} |-> ""]] /\ os \in OSs /\ hist = <<>>
Do(h) == Len(hist) < MaxOps /\ hist' = Append(hist, h) /\ Emit(<<os, hist'>>) /\ UNCHANGED os
Files(d) == d \o Sep(os) \o "f.xesext"
Next == \/ s' = SupportEff(s, os, "home") /\ Do(<<"support">>)
        \/ s' = CacheEff(s, os, "home") /\ Do(<<"cache">>)
        \/ \E v \in {"1", "2"} : Cache(os, "home") \in s.dirs /\ s' = WriteEff(s, Files(Cache(os, "home")), v) /\ Do(<<"write", v>>)
        \/ Support(os, "home") \in s.dirs /\ ~Windows(os) /\ s' = DeleteEff(s, Support(os, "home")) /\ Do(<<"delete">>)
Last == hist'[Len(hist')][1]
There == [][/\ Last \in {"support", "cache"} => Support(os, "home") \in s'.dirs /\ s.dirs \subseteq s'.dirs /\ s'.files = s.files
            /\ Last = "cache" => Cache(os, "home") \in s'.dirs]_vars
OneKind == /\ ~(Windows(os) /\ Unix(os)) /\ ~(Mac(os) /\ Linux(os)) /\ (Mac(os) \/ Linux(os) => Unix(os))
           /\ Starts(Cache(os, "home"), Support(os, "home") \o Sep(os))
Closed == Windows(os) \/ \A d \in s.dirs : Above(d) \subseteq s.dirs
=============================================================================
