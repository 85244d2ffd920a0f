------------------------------ MODULE TraceWrote ------------------------------
(***************************************************************************)
(* What is written for a value of a type is a document (or expression) that *)
(* holds this value, and is read as it.                                     *)
(***************************************************************************)
EXTENDS StyxTyped, Report

VARIABLES n, i, done
Init == n \in 1..Len(Recs) /\ i = 1 /\ done = FALSE
(* a missing optional value is written @, which the reader of documents
   refuses (a listed finding): what is written holds it all the same *)
Tree(r, cs) ==
  LET E == IF r.how = "wexpr" THEN ExprEvents(cs) ELSE Events(cs) IN
  IF HasErr(E) \/ (r.how = "wexpr" /\ E = <<>>) THEN <<>>
  ELSE IF r.how = "wexpr" THEN <<BuildVal(E, 1).v>>
  ELSE <<TreeOf(E)>>
Held(r, t, cs) == IF r.how = "wexpr" THEN ReadExpr(r.defs, r.ty, t, cs) ELSE ReadDoc(r.defs, r.ty, t, cs)
(* documentation needs lines of its own: what is written on one has none *)
RECURSIVE Undoc(_)
Undoc(v) ==
  CASE v[1] \in {"o", "l", "t", "r"} -> <<v[1], [j \in 1..Len(v[2]) |-> Undoc(v[2][j])]>>
    [] v[1] = "m" -> <<"m", [j \in 1..Len(v[2]) |-> <<v[2][j][1], Undoc(v[2][j][2])>>]>>
    [] v[1] = "e" -> <<"e", <<v[2][1], [j \in 1..Len(v[2][2]) |-> Undoc(v[2][2][j])]>>>>
    [] v[1] = "d" -> <<"d", <<Undoc(v[2][1]), <<>>>>>>
    [] OTHER -> v
One(r, w) ==
  IF ~w[2] THEN Mismatch(r, "unwritten", w[1], w[3])
  ELSE LET ts == Tree(r, w[3]) IN
       IF ts = <<>> THEN Mismatch(r, "unreadable", w[1], w[3])
       ELSE LET t == ts[1]
                u == Unwrite(t)
                h == Held(r, u, w[3])
                v == IF w[1] \in {"compact", "expr"} THEN Undoc(r.read.v) ELSE r.read.v
            IN \* more digits than the specification reads: the reader tells
               IF h = Free THEN (w[4].ok => Same(r, "reread", v, w[4].v))
               ELSE IF h = No THEN Mismatch(r, "unreadable", w[1], w[3])
               ELSE IF h[2] # v THEN Mismatch(r, "another", <<w[1], v>>, w[3])
               ELSE IF u # t /\ r.how # "swrite" THEN TRUE
               ELSE IF ~w[4].ok THEN Mismatch(r, "refused", <<w[1], w[3]>>, w[4].why)
               ELSE Same(r, "reread", v, w[4].v)
Next == /\ ~done /\ UNCHANGED n
        /\ LET r == Recs[n] IN
           IF r.panics # <<>> THEN NoPanic(r) /\ done' = TRUE /\ i' = i
           ELSE IF ~r.read.ok \/ i > Len(r.read.wrote) THEN done' = TRUE /\ i' = i
           ELSE One(r, r.read.wrote[i]) /\ i' = i + 1 /\ done' = FALSE
Spec == Init /\ [][Next]_<<n, i, done>>
=============================================================================
