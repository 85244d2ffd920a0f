------------------------------- MODULE TraceVal -------------------------------
(***************************************************************************)
(* The value writer.  Writing a value read from a document and reading the *)
(* result gives the value again, under every writer option.                *)
(***************************************************************************)
EXTENDS StyxTree, Report

\* Known deviation: a tagged scalar is written as a tagged sequence of it.
RECURSIVE Boxed(_)
Boxed(v) ==
  LET w == [v EXCEPT !.i = [j \in 1..Len(v.i) |-> Boxed(v.i[j])],
                     !.e = [j \in 1..Len(v.e) |-> <<v.e[j][1], Boxed(v.e[j][2]), v.e[j][3]>>]]
  IN IF v.g # <<>> /\ v.k = "scalar" THEN [w EXCEPT !.k = "seq", !.n = "", !.t = <<>>, !.i = <<[v EXCEPT !.g = <<>>]>>] ELSE w

VARIABLES n, done
Init == n \in 1..Len(Recs) /\ done = FALSE

Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ LET r == Recs[n]
               E == Events(r.cs)
           IN IF r.panics # <<>> THEN NoPanic(r)
              ELSE IF HasErr(E) THEN TRUE
              ELSE LET W == Events(r.vfmt)
                   IN IF HasErr(W) THEN Mismatch(r, "unreadable", FirstErr(W), r.vfmt)
                      ELSE IF Meaning(TreeOf(W)) = Meaning(TreeOf(E)) THEN TRUE
                      ELSE IF Meaning(TreeOf(W)) = Meaning(Boxed(TreeOf(E))) THEN Mismatch(r, "boxed", <<>>, r.vfmt)
                      ELSE Mismatch(r, "meaning", <<>>, r.vfmt)
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
