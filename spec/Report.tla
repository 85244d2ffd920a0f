------------------------------- MODULE Report -------------------------------
(* The records a trace module works on, and how it tells a mismatch.        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.STYX_RECS)

Mismatch(r, kind, exp, got) ==
  PrintT("MISMATCH " \o ToJson([id |-> r.id, kind |-> kind, exp |-> exp, got |-> got]))

(* TRUE, after reporting when the two differ *)
Same(r, kind, exp, got) == IF exp = got THEN TRUE ELSE Mismatch(r, kind, exp, got)

Holds(r, kind, cond) == IF cond THEN TRUE ELSE Mismatch(r, kind, <<>>, <<>>)

NoPanic(r) == IF r.panics = <<>> THEN TRUE ELSE Mismatch(r, "panic", <<>>, r.panics)

Min2(a, b) == IF a <= b THEN a ELSE b
Slice(s, a, b) == SubSeq(s, a, Min2(b, Len(s)))
=============================================================================
