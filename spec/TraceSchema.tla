------------------------------ MODULE TraceSchema -----------------------------
(***************************************************************************)
(* The validator's answers to (schema, document) pairs are the verdicts of  *)
(* StyxSchema.                                                               *)
(***************************************************************************)
EXTENDS StyxSchema, Report

VARIABLES n, done
Init == n \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ LET r == Recs[n] IN
           IF r.panics # <<>> THEN NoPanic(r)
           ELSE IF ~r.validate.reads THEN Mismatch(r, "reads", TRUE, r.validate.why)
           ELSE LET E == Events(r.cs)
                    v == Verdict(Schema(TreeOf(Events(r.ss))), TreeOf(E))
                IN IF HasErr(E) THEN Same(r, "parses", FALSE, r.validate.parses)
                   ELSE /\ Same(r, "parses", TRUE, r.validate.parses)
                        /\ IF SameBag(v.e, r.validate.errors) THEN TRUE ELSE Mismatch(r, "errors", v.e, r.validate.errors)
                        /\ IF SameBag(v.w, r.validate.warnings) THEN TRUE ELSE Mismatch(r, "warnings", v.w, r.validate.warnings)
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
