------------------------------ MODULE TraceTyped ------------------------------
(***************************************************************************)
(* What documents and expressions are read as is what StyxTyped says.       *)
(***************************************************************************)
EXTENDS StyxTyped, Report

VARIABLES n, done
Init == n \in 1..Len(Recs) /\ done = FALSE
Want(r) ==
  LET E == IF r.how = "expr" THEN ExprEvents(r.cs) ELSE Events(r.cs) IN
  IF HasErr(E) THEN No
  ELSE IF r.how = "expr" THEN IF E = <<>> THEN Free ELSE ReadExpr(r.defs, r.ty, BuildVal(E, 1).v, r.cs)
  ELSE IF r.how \in {"unit", "serde"}                  \* "unit": probes of the listed finding, which serde does not have
       THEN ReadDoc(r.defs, r.ty, Unwrite(TreeOf(E)), r.cs)
  ELSE ReadDoc(r.defs, r.ty, TreeOf(E), r.cs)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ LET r == Recs[n] IN
           IF r.panics # <<>> THEN NoPanic(r)
           ELSE LET w == Want(r) IN
                CASE w = Free -> TRUE
                  [] w = No -> IF r.read.ok THEN Mismatch(r, "accepted", <<>>, r.read.v) ELSE TRUE
                  [] OTHER -> IF ~r.read.ok THEN Mismatch(r, "refused", w[2], r.read.why) ELSE Same(r, "value", w[2], r.read.v)
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
