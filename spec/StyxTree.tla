------------------------------- MODULE StyxTree -------------------------------
(***************************************************************************)
(* The document tree that the events of a document stand for.              *)
(* Value: [g, c, k, n, t, i, e, sp] - g: tag (<<>> or <<0>> \o name),      *)
(* c: the further tags of a chain, which the tree API does not keep,        *)
(* k: none/scalar/seq/obj, n: scalar kind, t: text, i: items, e: entries   *)
(* <<key, value, doc>>, sp: span (<<>> or <<s, e>>).                       *)
(***************************************************************************)
EXTENDS StyxParse

NoneV(g, sp) == [g |-> g, c |-> <<>>, k |-> "none", n |-> "", t |-> <<>>, i |-> <<>>, e |-> <<>>, sp |-> sp]
ScalarV(g, n, t, sp) == [NoneV(g, sp) EXCEPT !.k = "scalar", !.n = n, !.t = t]

IsErr(ev) == ev[1] = "Error"
HasErr(E) == \E j \in 1..Len(E) : IsErr(E[j])
FirstErr(E) == E[CHOOSE j \in 1..Len(E) : IsErr(E[j]) /\ \A q \in 1..(j - 1) : ~IsErr(E[q])]

JoinDoc(a, t) == IF a = <<>> THEN <<0>> \o t ELSE a \o <<10>> \o t

RECURSIVE BuildVal(_, _)          \* [v, i]: value starting at event i, next event
RECURSIVE BuildItems(_, _, _)
RECURSIVE BuildEntries(_, _, _, _)
RECURSIVE SkipComments(_, _)

SkipComments(E, i) == IF i <= Len(E) /\ E[i][1] = "Comment" THEN SkipComments(E, i + 1) ELSE i

BuildVal(E, i0) ==
  LET i == SkipComments(E, i0)
      ev == E[i]
      sp == <<ev[3], ev[4]>>
  IN CASE ev[1] = "Scalar" -> [v |-> ScalarV(<<>>, ev[2], ev[6], sp), i |-> i + 1]
       [] ev[1] = "Unit" -> [v |-> NoneV(<<>>, sp), i |-> i + 1]
       [] ev[1] = "SequenceStart" ->
            LET r == BuildItems(E, i + 1, <<>>)
            IN [v |-> [NoneV(<<>>, <<ev[3], E[r.i][4]>>) EXCEPT !.k = "seq", !.i = r.v], i |-> r.i + 1]
       [] ev[1] = "ObjectStart" ->
            LET r == BuildEntries(E, i + 1, <<>>, <<>>)
            IN [v |-> [NoneV(<<>>, <<ev[3], E[r.i][4]>>) EXCEPT !.k = "obj", !.e = r.v], i |-> r.i + 1]
       [] ev[1] = "TagStart" ->
            IF E[i + 1][1] = "TagEnd"
            THEN [v |-> NoneV(<<0>> \o ev[5], sp), i |-> i + 2]
            ELSE LET r == BuildVal(E, i + 1)
                 (* deviation D8: a value has one tag, so the inner tag of a *)
                 (* chain is not kept                                        *)
                 IN [v |-> [r.v EXCEPT !.g = <<0>> \o ev[5], !.c = IF r.v.g = <<>> THEN <<>> ELSE <<r.v.g>> \o r.v.c],
                     i |-> r.i + 1]

BuildItems(E, i0, acc) ==
  LET i == SkipComments(E, i0) IN
  IF E[i][1] = "SequenceEnd" THEN [v |-> acc, i |-> i]
  ELSE LET r == BuildVal(E, i) IN BuildItems(E, r.i, Append(acc, r.v))

KeyV(ev) ==
  IF ev[6] = <<>> THEN NoneV(ev[5], <<ev[3], ev[4]>>)
  ELSE ScalarV(ev[5], ev[2], Tail(ev[6]), <<ev[3], ev[4]>>)

BuildEntries(E, i, acc, doc) ==
  LET ev == E[i] IN
  CASE ev[1] = "ObjectEnd" -> [v |-> acc, i |-> i]
    [] ev[1] = "Comment" -> BuildEntries(E, i + 1, acc, doc)
    [] ev[1] = "DocComment" -> BuildEntries(E, i + 1, acc, JoinDoc(doc, ev[6]))
    [] ev[1] = "EntryStart" ->
         LET r == BuildVal(E, i + 2)
             z == SkipComments(E, r.i)            \* EntryEnd
         IN BuildEntries(E, z + 1, Append(acc, <<KeyV(E[i + 1]), r.v, doc>>), <<>>)

(* The tree of a document without errors *)
TreeOf(E) ==
  LET i == CHOOSE j \in 1..(Len(E) + 1) :
             (j > Len(E) \/ E[j][1] = "ObjectStart") /\ \A q \in 1..(j - 1) : E[q][1] # "ObjectStart"
  IN [NoneV(<<>>, <<>>) EXCEPT !.k = "obj",
        !.e = IF i > Len(E) THEN <<>> ELSE BuildEntries(E, i + 1, <<>>, <<>>).v]

(* Sibling dotted paths (a.b 1 and a.c 2) are entries with the same key; what *)
(* reads the document by its keys sees one object.                           *)
Untagged(v) == v.g = <<>> /\ v.k = "obj"
JoinOne(acc, x) ==
  IF acc = <<>> THEN <<x>> ELSE
  LET l == acc[Len(acc)]
      es == IF x[3] = <<>> \/ x[2].e = <<>> THEN x[2].e     \* what documents the path documents what it adds
            ELSE [x[2].e EXCEPT ![1][3] = IF @ = <<>> THEN x[3] ELSE JoinDoc(x[3], Tail(@))]
  IN
  IF /\ l[1].g = <<>> /\ x[1].g = <<>> /\ l[1].k = "scalar" /\ x[1].k = "scalar" /\ l[1].t = x[1].t
     /\ Untagged(l[2]) /\ Untagged(x[2])
  THEN [acc EXCEPT ![Len(acc)][2].e = @ \o es,
                   ![Len(acc)][2].sp = IF @ = <<>> \/ x[2].sp = <<>> THEN @ ELSE <<@[1], x[2].sp[2]>>]
  ELSE Append(acc, x)
RECURSIVE JoinEnts(_, _)
JoinEnts(es, acc) == IF es = <<>> THEN acc ELSE JoinEnts(Tail(es), JoinOne(acc, es[1]))
RECURSIVE Joined(_)
Joined(v) ==
  LET m == JoinEnts(v.e, <<>>) IN
  [v EXCEPT !.i = [j \in 1..Len(v.i) |-> Joined(v.i[j])],
            !.e = [j \in 1..Len(m) |-> <<m[j][1], Joined(m[j][2]), m[j][3]>>]]

(* Values as tuples, the form in which the harness records them *)
RECURSIVE Enc(_)
Enc(v) == <<v.g, v.k, v.n, v.t, [j \in 1..Len(v.i) |-> Enc(v.i[j])],
            [j \in 1..Len(v.e) |-> <<Enc(v.e[j][1]), Enc(v.e[j][2]), v.e[j][3]>>], v.sp>>

(* The answer of the tree API: <<ok, value, first error>> *)
TreeAnswer(E) ==
  IF HasErr(E) THEN <<FALSE, <<>>, FirstErr(E)>>
  ELSE <<TRUE, Enc(TreeOf(E)), <<>>>>

(* Forget spans and scalar kinds: what a document means *)
RECURSIVE Meaning(_)
Meaning(v) ==
  <<v.g, v.k, v.t, [j \in 1..Len(v.i) |-> Meaning(v.i[j])],
    [j \in 1..Len(v.e) |-> <<Meaning(v.e[j][1]), Meaning(v.e[j][2]), v.e[j][3]>>]>>
=============================================================================
