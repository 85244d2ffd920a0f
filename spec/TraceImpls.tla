------------------------------ MODULE TraceImpls ------------------------------
(***************************************************************************)
(* The implementations in Go, JavaScript and Python answer a document the  *)
(* way the reference does: with the tree its events stand for when there   *)
(* is no error among them, and with an error otherwise.                    *)
(* r.impls: <<name, how, tree, why>>; a value of such a tree is            *)
(* <<tag, kind, scalar kind, text, items, entries, span>>.                 *)
(***************************************************************************)
EXTENDS StyxTree, Report

(* The span of an object a dotted path stands for, of a tag and of a unit   *)
(* is nowhere fixed; those of what is written as a scalar or sequence are.  *)
RECURSIVE SameV(_, _)
RECURSIVE SameEntries(_, _)
SameV(v, w) ==
  /\ v.g = w[1] /\ v.k = w[2] /\ v.n = w[3] /\ v.t = w[4]
  /\ v.k \in {"scalar", "seq"} => v.sp = w[7]
  /\ Len(v.i) = Len(w[5]) /\ \A j \in 1..Len(v.i) : SameV(v.i[j], w[5][j])
  /\ SameEntries(v.e, w[6])
SameKey(k, w) ==
  /\ k.g = w[1] /\ k.k = w[2] /\ k.n = w[3] /\ k.t = w[4]
  /\ (k.k = "scalar" /\ k.g = <<>>) => k.sp = w[7]
SameEntries(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A j \in 1..Len(a) : SameKey(a[j][1], b[j][1]) /\ SameV(a[j][2], b[j][2])

(* A tag whose payload is another tag: only the reference reads these       *)
Chain(E) == \E j \in 2..Len(E) : E[j][1] = "TagStart" /\ E[j - 1][1] = "TagStart"

(* @t and @t@ are two keys to the reference                                 *)
UnitKey(E) == \E j \in 1..Len(E) :
  E[j][1] = "Key" /\ E[j][5] # <<>> /\ E[j][6] = <<>> /\ E[j][4] - E[j][3] > Len(E[j][5])

Answer(r, E, x) ==
  CASE x[2] \in {"crash", "hang"} -> Mismatch(r, x[2] \o " " \o x[1], <<>>, x)
    [] x[2] = "tree" /\ HasErr(E) -> Mismatch(r, "accepted by " \o x[1], FirstErr(E), x)
    [] x[2] = "tree" /\ ~HasErr(E) ->
         LET v == TreeOf(E) IN
         IF SameEntries(v.e, x[3][6]) THEN TRUE ELSE Mismatch(r, "tree of " \o x[1], v, x)
    [] x[2] = "error" /\ ~HasErr(E) ->
         IF UnitKey(E) THEN TRUE
         ELSE Mismatch(r, (IF Chain(E) THEN "chain " ELSE "refused by ") \o x[1], TreeOf(E), x)
    [] OTHER -> TRUE

VARIABLES n, done
Init == n \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ LET r == Recs[n] E == Events(r.cs) IN
           \A j \in 1..Len(r.impls) : Answer(r, E, r.impls[j])
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
