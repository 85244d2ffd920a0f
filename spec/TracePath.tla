------------------------------ MODULE TracePath ------------------------------
(***************************************************************************)
(* Conformance of the key and path rules.  A record is a history of        *)
(* entries of one object - each with its key (segments), whether its value *)
(* is an object, and the span of the key in the rendered document - and    *)
(* the errors the real parser reported for the document.  The history is   *)
(* replayed through PathStep, one state per entry.                         *)
(***************************************************************************)
EXTENDS StyxParse, Report

VARIABLES n, i, ps, errs, bad
vars == <<n, i, ps, errs, bad>>

Init == n \in 1..Len(Recs) /\ i = 0 /\ ps = EmptyPath /\ errs = <<>> /\ bad = FALSE

(* A segment is <<form, tag, text>>: form is s (scalar), u (unit), t (tag), *)
(* ts (tag with scalar), tu (tag with unit)                                 *)
SegId(g) == CASE g[1] = "s" -> ScalarId(g[3])
              [] g[1] = "u" -> UnitId
              [] g[1] = "t" -> TagId(g[2], <<>>)
              [] g[1] = "tu" -> TagId(g[2], UnitId)
              [] g[1] = "ts" -> TagId(g[2], ScalarId(g[3]))

Entry == /\ ~bad /\ i < Len(Recs[n].entries) /\ Recs[n].panics = <<>>
         /\ LET e == Recs[n].entries[i + 1]
                path == [j \in 1..Len(e.path) |-> SegId(e.path[j])]
                r == PathStep(ps, path, e.span, e.kind)
            IN /\ ps' = r.ps
               /\ errs' = IF r.err = <<>> THEN errs
                          ELSE Append(errs, <<r.err[1], e.span[1], e.span[2], r.err[2]>>)
         /\ i' = i + 1 /\ UNCHANGED <<n, bad>>

Finish == /\ ~bad /\ (i = Len(Recs[n].entries) \/ Recs[n].panics # <<>>)
          /\ bad' = TRUE
          /\ IF Recs[n].panics # <<>> THEN NoPanic(Recs[n])
             ELSE LET E == SelectSeq(Recs[n].events, LAMBDA e : e[1] = "Error")
                      got == [j \in 1..Len(E) |-> <<E[j][2], E[j][3], E[j][4], E[j][6]>>]
                  IN Same(Recs[n], "key rules", errs, got)
          /\ UNCHANGED <<n, i, ps, errs>>

Next == Entry \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
