------------------------------- MODULE Tr_P07 -------------------------------
EXTENDS TraceKit, Temporal
TInit(case) == 0
\* e.got: <<>> when the reader gave nothing, else the fields of the datetime
Read(e) ==
  IF e.err # "" THEN {"fails"}
  ELSE IF Denotes(e.text)
       THEN IF e.got = <<>> THEN {"unread"}
            ELSE Clause("instant", InstantOf(e.got) = InstantOf(FieldsOf(e.text)))
       ELSE Clause("accepted", e.got = <<>> \/ Lenient(e.text))
Near(a, b) == ToMilli(b) = ToMilli(a)   \* b is a to the millisecond
OffOf(f) == IF f[8] = Naive THEN 0 ELSE f[8]
Write(e) ==
  IF e.err # "" THEN {"fails"}
  ELSE IF ~Denotes(e.text) THEN {"layout"}
  ELSE Clause("written_instant", Near(InstantOf(e.dt), InstantOf(FieldsOf(e.text))))
       \cup Clause("written_zone", FieldsOf(e.text)[8] = OffOf(e.dt))
       \cup (IF e.got = <<>> THEN {"unread"}
             ELSE Clause("reread_instant", Near(InstantOf(e.dt), InstantOf(e.got)))
                  \cup Clause("reread_zone", OffOf(e.got) = OffOf(e.dt)))
TStep(case, s, e) == Res(s, CASE e.op = "read" -> Read(e) [] e.op = "write" -> Write(e))
=============================================================================
