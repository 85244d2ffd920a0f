------------------------------ MODULE TraceTree ------------------------------
(***************************************************************************)
(* The tree API answers a document with the tree its events stand for, or  *)
(* with its first error.                                                   *)
(***************************************************************************)
EXTENDS StyxTree, Report

VARIABLES n, done
Init == n \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ LET r == Recs[n] IN
           IF r.panics # <<>> THEN NoPanic(r)
           ELSE Same(r, "tree", TreeAnswer(Events(r.cs)), r.tree)
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
