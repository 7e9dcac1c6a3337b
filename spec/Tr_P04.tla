------------------------------- MODULE Tr_P04 -------------------------------
EXTENDS TraceKit, Formats
TInit(case) == 0
Seq2Set(s) == {s[i] : i \in 1 .. Len(s)}
TStep(case, s, e) == Res(s,
  CASE e.op = "claim" ->
         IF e.err # "" THEN {"claim_fails"}
         ELSE Clause("claim", Seq2Set(e.claims) = Claimants(e.name))
              \cup Clause("universal_claim", e.uni = (Claimants(e.name) # {}))
    [] e.op = "writer" ->
         IF e.err # "" THEN {"writer_fails"}
         ELSE Clause("no_suffix", e.suffixes # <<>>)
              \cup Clause("suffix_without_reader",
                          \A i \in 1 .. Len(e.suffixes) : Claimants("log." \o e.suffixes[i]) = {e.format})
    [] e.op = "files" ->
         IF e.err # "" THEN {"file_fails"}
         ELSE Clause("decompressed", e.unzipped = e.plain)
              \cup Clause("read_back", e.fromgz = e.fromplain)
              \cup Clause("universal_plain", e.uniplain = e.fromplain)
              \cup Clause("universal_gz", e.unigz = e.fromgz)
              \cup Clause("something", e.fromplain # "fail")
    [] e.op = "open" ->
         \* e.res: answers of the readers that claim the name, by reader
         Clause("claimants", DOMAIN e.res = Claimants(e.name) \cup Seq2Set(e.custom))
         \cup Clause("universal", e.got \in Universal(DOMAIN e.res, e.res)))
=============================================================================
