------------------------------ MODULE TraceExpr ------------------------------
(***************************************************************************)
(* Single-value reading: the events recorded in expression mode are those  *)
(* of the specification.  Where the text is one complete value, they are   *)
(* also the events of that value in the document "k <text>", moved by two. *)
(***************************************************************************)
EXTENDS StyxTree, Report

VARIABLES n, done
Init == n \in 1..Len(Recs) /\ done = FALSE

Moved(E, by) == [j \in 1..Len(E) |-> [E[j] EXCEPT ![3] = @ + by, ![4] = @ + by]]

(* the document of one entry whose value is the text *)
AsEntry(cs) == <<107, 32>> \o cs
ValueEvents(E) ==  \* DocumentStart ObjectStart EntryStart Key value.. EntryEnd ObjectEnd DocumentEnd
  SubSeq(E, 5, Len(E) - 3)
Count(E, k) == Len(SelectSeq(E, LAMBDA e : e[1] = k))
OneEntry(E) == Len(E) >= 8 /\ ~HasErr(E) /\ E[Len(E) - 2][1] = "EntryEnd" /\ Count(E, "Comment") = 0
               /\ Count(E, "DocComment") = 0
               /\ BuildVal(E, 5).i = Len(E) - 2

Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ LET r == Recs[n]
               exp == ExprEvents(r.cs)
               doc == Events(AsEntry(r.cs))
           IN IF r.panics # <<>> THEN NoPanic(r)
              ELSE /\ Same(r, "expr", exp, r.expr)
                   (* the two readings agree, in the specification *)
                   /\ IF exp = <<>> \/ HasErr(exp) THEN TRUE
                      ELSE IF ~OneEntry(doc) THEN TRUE
                      ELSE IF ValueEvents(doc) = Moved(exp, 2) THEN TRUE
                      ELSE Assert(FALSE, <<"expression and document differ", r.cs, exp, doc>>)
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
