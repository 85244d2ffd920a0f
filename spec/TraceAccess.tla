------------------------------ MODULE TraceAccess -----------------------------
(***************************************************************************)
(* Histories of operations on a document: the answers of the tree API, the *)
(* document at the end, and that it is written as text that means it.      *)
(***************************************************************************)
EXTENDS StyxAccess, Report

RECURSIVE Boxed(_)
Boxed(v) ==
  LET w == [v EXCEPT !.i = [j \in 1..Len(v.i) |-> Boxed(v.i[j])],
                     !.e = [j \in 1..Len(v.e) |-> <<v.e[j][1], Boxed(v.e[j][2]), v.e[j][3]>>]]
  IN IF v.g # <<>> /\ v.k = "scalar" THEN [w EXCEPT !.k = "seq", !.n = "", !.t = <<>>, !.i = <<[v EXCEPT !.g = <<>>]>>] ELSE w

VARIABLES n, i, v
vars == <<n, i, v>>
Ok(r) == ~HasErr(Events(r.cs))
Init == n \in 1..Len(Recs) /\ i = 0 /\ v = NoneV(<<>>, <<>>)

Start(r) == /\ v' = (IF Ok(r) THEN TreeOf(Events(r.cs)) ELSE v)
            /\ i' = (IF Ok(r) /\ r.panics = <<>> THEN 1 ELSE Len(r.ops) + 2)
            /\ IF r.panics # <<>> THEN NoPanic(r) ELSE Same(r, "reads", Ok(r), r.tree.ok)
Step(r) == LET s == Op(v, r.ops[i]) IN
           /\ Same(r, "answer", <<i, r.ops[i], s.a>>, <<i, r.ops[i], r.tree.answers[i]>>)
           /\ v' = s.v /\ i' = i + 1
Finish(r) == /\ Same(r, "end", Meaning(v), r.tree.end)
             /\ IF Parted(v) THEN TRUE
                ELSE LET W == Events(r.tree.written) IN
                     IF HasErr(W) THEN Mismatch(r, "unreadable", FirstErr(W), r.tree.written)
                     ELSE IF Meaning(TreeOf(W)) \in {Meaning(v), Meaning(Boxed(v))} THEN TRUE
                     ELSE Mismatch(r, "written", Meaning(v), r.tree.written)
             /\ i' = i + 1 /\ UNCHANGED v
Next == LET r == Recs[n] IN
        /\ UNCHANGED n
        /\ IF i = 0 THEN Start(r) ELSE IF i <= Len(r.ops) THEN Step(r) ELSE i = Len(r.ops) + 1 /\ Finish(r)
Spec == Init /\ [][Next]_vars
=============================================================================
