------------------------------- MODULE TraceCst -------------------------------
(* The syntax tree recorded from the real crate is the specified one, its    *)
(* text is the document, and in the specification its leaves tile the text.  *)
EXTENDS StyxCst, Report

VARIABLES n, done
Init == n \in 1..Len(Recs) /\ done = FALSE

NodeKinds == Inner \cup {"/"}
Leaves(W) == SelectSeq(W, LAMBDA w : w[1] \notin NodeKinds)
Tile(W, len) == LET l == Leaves(W) IN
  /\ \A i \in 1..(Len(l) - 1) : l[i][3] = l[i + 1][2]
  /\ IF l = <<>> THEN len = 0 ELSE l[1][2] = 0 /\ l[Len(l)][3] = len

Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ LET r == Recs[n] IN
           IF r.panics # <<>> THEN NoPanic(r)
           ELSE LET c == Cst(r.cs) IN
                /\ Assert(Tile(c.o, Len(r.cs)), <<"leaves do not tile", r.cs, c.o>>)
                /\ Same(r, "text", r.cs, r.cst.text)
                /\ Same(r, "walk", c.o, r.cst.pre)
                /\ Same(r, "errors", c.r, r.cst.errs)
                /\ Same(r, "ok", c.r = <<>>, r.cst.ok)
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
