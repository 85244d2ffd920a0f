------------------------------ MODULE StyxAccess ------------------------------
(***************************************************************************)
(* Reading and changing a document after it was read: paths, keys, indexes *)
(* in the tree API (the state is the document), and the C API (the state   *)
(* is what is open: documents, and handles into them).                     *)
(***************************************************************************)
EXTENDS StyxTree

(* ----------------------------------------------------------------- paths *)
Before(t, c) == CHOOSE j \in 1..(Len(t) + 1) : (j > Len(t) \/ t[j] = c) /\ \A q \in 1..(j - 1) : t[q] # c

(* the first step of a path: a name up to a dot or bracket, or [index] *)
SplitPath(t) ==
  LET close == Before(t, 93)
      dot == Before(t, 46)
      br == Before(t, 91)
      rest(j) == SubSeq(t, j, Len(t))
  IN IF t[1] = 91 /\ close <= Len(t)
     THEN LET r == rest(close + 1) IN <<SubSeq(t, 1, close), IF r # <<>> /\ r[1] = 46 THEN Tail(r) ELSE r>>
     ELSE IF dot > Len(t) /\ br > Len(t) THEN <<t, <<>>>>
     ELSE IF br < dot THEN <<SubSeq(t, 1, br - 1), rest(br)>>
     ELSE <<SubSeq(t, 1, dot - 1), rest(dot + 1)>>

RECURSIVE Strip0s(_)
Strip0s(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Strip0s(Tail(d)) ELSE d
RECURSIVE ToNat(_)
ToNat(d) == IF d = <<>> THEN 0 ELSE 10 * ToNat(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)] - 48
Index(seg) ==                        \* 0-based index of "[n]", or -1
  IF Len(seg) < 3 \/ seg[1] # 91 \/ seg[Len(seg)] # 93 THEN 0 - 1
  ELSE LET b == SubSeq(seg, 2, Len(seg) - 1)
           d == IF b[1] = 43 THEN Tail(b) ELSE b
       IN IF d = <<>> \/ \E q \in 1..Len(d) : d[q] < 48 \/ d[q] > 57 THEN 0 - 1
          ELSE IF Len(Strip0s(d)) > 6 THEN 999999 ELSE ToNat(d)

PlainKey(x, name) == x[1].g = <<>> /\ x[1].k = "scalar" /\ x[1].t = name
MinOf(S) == CHOOSE j \in S : \A q \in S : j <= q

(* where a path leads: <<positions>> or <<>>.  A key that dotted siblings    *)
(* repeat is looked into everywhere.                                         *)
RECURSIVE Loc(_, _)
Loc(v, path) ==
  IF path = <<>> THEN << <<>> >>
  ELSE LET s == SplitPath(path) IN
       IF v.k = "obj"
       THEN LET hits == {j \in 1..Len(v.e) : PlainKey(v.e[j], s[1]) /\ Loc(v.e[j][2], s[2]) # <<>>}
            IN IF hits = {} THEN <<>> ELSE << <<MinOf(hits)>> \o Loc(v.e[MinOf(hits)][2], s[2])[1] >>
       ELSE IF v.k = "seq"
       THEN LET n == Index(s[1]) IN
            IF n < 0 \/ n >= Len(v.i) THEN <<>>
            ELSE LET r == Loc(v.i[n + 1], s[2]) IN IF r = <<>> THEN <<>> ELSE << <<n + 1>> \o r[1] >>
       ELSE <<>>

RECURSIVE Sub(_, _)
Sub(v, loc) == IF loc = <<>> THEN v ELSE Sub(IF v.k = "obj" THEN v.e[loc[1]][2] ELSE v.i[loc[1]], Tail(loc))
Get(v, path) == LET l == Loc(v, path) IN IF l = <<>> THEN <<>> ELSE <<Sub(v, l[1])>>
DocGet(v, path) == IF path = <<>> THEN <<>> ELSE Get(v, path)

FirstKey(v, name) == {j \in 1..Len(v.e) : PlainKey(v.e[j], name)}
ObjGet(v, name) == IF FirstKey(v, name) = {} THEN <<>> ELSE <<v.e[MinOf(FirstKey(v, name))][2]>>

(* a path below the first entry with a key, as changes take it *)
LocIn(v, name, path) ==
  IF FirstKey(v, name) = {} THEN <<>>
  ELSE LET j == MinOf(FirstKey(v, name))
           r == Loc(v.e[j][2], path)
       IN IF r = <<>> THEN <<>> ELSE << <<j>> \o r[1] >>

RECURSIVE Put(_, _, _)
Put(v, loc, w) ==
  IF loc = <<>> THEN w
  ELSE IF v.k = "obj" THEN [v EXCEPT !.e[loc[1]][2] = Put(@, Tail(loc), w)]
  ELSE [v EXCEPT !.i[loc[1]] = Put(@, Tail(loc), w)]

PlainV(t) == ScalarV(<<>>, "Bare", t, <<>>)
IsUnitKey(x) == x[1].g = <<>> /\ x[1].k = "none"

Insert(v, name, w) ==
  LET hits == FirstKey(v, name)
      keep == SelectSeq([j \in 1..Len(v.e) |-> <<j, v.e[j]>>], LAMBDA x : x[1] \notin hits \/ x[1] = MinOf(hits))
  IN IF hits = {} THEN [v EXCEPT !.e = Append(@, <<PlainV(name), w, <<>>>>)]
     ELSE [v EXCEPT !.e = [j \in 1..Len(keep) |-> IF keep[j][1] \in hits THEN <<keep[j][2][1], w, keep[j][2][3]>> ELSE keep[j][2]]]

InsertUnit(v, w) ==
  LET hits == {j \in 1..Len(v.e) : IsUnitKey(v.e[j])} IN
  IF hits = {} THEN [v EXCEPT !.e = Append(@, <<NoneV(<<>>, <<>>), w, <<>>>>)]
  ELSE [v EXCEPT !.e[MinOf(hits)][2] = w]

(* the values that operations put in *)
RECURSIVE Made(_)
Made(x) ==
  CASE x[1] = "unit" -> NoneV(<<>>, <<>>)
    [] x[1] = "scalar" -> PlainV(x[2])
    [] x[1] = "tag" -> NoneV(<<0>> \o x[2], <<>>)
    [] x[1] = "seq" -> [NoneV(<<>>, <<>>) EXCEPT !.k = "seq", !.i = [j \in 1..Len(x[2]) |-> Made(x[2][j])]]
    [] x[1] = "obj" -> [NoneV(<<>>, <<>>) EXCEPT !.k = "obj"]
    [] x[1] = "tagged" -> [Made(x[3]) EXCEPT !.g = <<0>> \o x[2]]

Found(vs) == IF vs = <<>> THEN <<>> ELSE <<Meaning(vs[1])>>

(* one operation: [v, a] document afterwards and answer *)
Op(v, op) ==
  LET put(l, w) == IF l = <<>> THEN [v |-> v, a |-> FALSE] ELSE [v |-> Put(v, l[1], w), a |-> TRUE]
      in(l, kind) == IF l # <<>> /\ Sub(v, l[1]).k = kind THEN l ELSE <<>>
      tell(a) == [v |-> v, a |-> a]
  IN CASE op[1] = "get" -> tell(Found(DocGet(v, op[2])))
       [] op[1] = "vget" -> tell(LET w == DocGet(v, op[2]) IN IF w = <<>> THEN <<>> ELSE Found(Get(w[1], op[3])))
       [] op[1] = "set" -> put(LocIn(v, op[2], op[3]), Made(op[4]))
       [] op[1] = "insert" -> [v |-> Insert(v, op[2], Made(op[3])), a |-> TRUE]
       [] op[1] = "insertin" -> LET l == in(LocIn(v, op[2], op[3]), "obj")
                                IN put(l, IF l = <<>> THEN v ELSE Insert(Sub(v, l[1]), op[4], Made(op[5])))
       [] op[1] = "insertunit" -> [v |-> InsertUnit(v, Made(op[2])), a |-> TRUE]
       [] op[1] = "push" -> LET l == in(LocIn(v, op[2], op[3]), "seq")
                            IN put(l, IF l = <<>> THEN v ELSE [Sub(v, l[1]) EXCEPT !.i = Append(@, Made(op[4]))])
       [] op[1] = "has" -> tell(FirstKey(v, op[2]) # {})
       [] op[1] = "len" -> tell(Len(v.e))
       [] op[1] = "unit" -> tell(LET h == {j \in 1..Len(v.e) : IsUnitKey(v.e[j])} IN IF h = {} THEN <<>> ELSE Found(<<v.e[MinOf(h)][2]>>))

(* a key repeated by dotted siblings: such parts may no longer fit together *)
(* after a change, so that the document may have no text                    *)
RECURSIVE Parted(_)
Parted(v) ==
  \/ \E a, b \in 1..Len(v.e) : a # b /\ Meaning(v.e[a][1]) = Meaning(v.e[b][1])
  \/ \E j \in 1..Len(v.e) : Parted(v.e[j][2])
  \/ \E j \in 1..Len(v.i) : Parted(v.i[j])
(* tags that are not written as tags *)
Letter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
GoodTag(g) == g = <<>> \/ (Len(g) > 1 /\ Letter(g[2]) /\ \A j \in 2..Len(g) : Letter(g[j]) \/ (g[j] >= 48 /\ g[j] <= 57) \/ g[j] \in {45, 46})

(* ----------------------------------------------------------------- C API *)
(* C: docs slot -> tree; vals, objs, seqs slot -> <<document, value>> *)
C0 == [docs |-> <<>>, vals |-> <<>>, objs |-> <<>>, seqs |-> <<>>]     \* empty functions
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
With(f, x, y) == (x :> y) @@ f
NotOf(f, d) == [x \in {x \in DOMAIN f : f[x][1] # d} |-> f[x]]
Opt(t) == <<0>> \o t

Hold(C, f, slot, d, vs) ==           \* a handle or null put into a slot
  [c |-> [C EXCEPT ![f] = IF vs = <<>> THEN Without(@, {slot}) ELSE With(@, slot, <<d, vs[1]>>)], a |-> vs # <<>>]
Only(v, kind) == IF v.k = kind THEN <<v>> ELSE <<>>
Nth(s, i) == IF i < Len(s) THEN <<s[i + 1]>> ELSE <<>>

COp(C, op) ==
  LET skip == [c |-> C, a |-> "skip"]
      tell(a) == [c |-> C, a |-> a]
      x == op[2]
      v == C.vals[x][2]
      vd == C.vals[x][1]
      o == C.objs[x][2]
      od == C.objs[x][1]
      s == C.seqs[x][2]
  IN CASE op[1] = "parse" ->
            IF x \in DOMAIN C.docs THEN skip
            ELSE LET E == Events(op[3]) IN
                 IF HasErr(E) THEN tell(<<FALSE, TRUE>>)
                 ELSE [c |-> [C EXCEPT !.docs = With(@, x, TreeOf(E))], a |-> <<TRUE, FALSE>>]
       [] op[1] = "null" -> tell(<<TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, TRUE>>)
       [] op[1] \in {"free", "root", "dget"} ->
            IF x \notin DOMAIN C.docs THEN skip
            ELSE IF op[1] = "free" THEN [c |-> [docs |-> Without(C.docs, {x}), vals |-> NotOf(C.vals, x), objs |-> NotOf(C.objs, x), seqs |-> NotOf(C.seqs, x)], a |-> TRUE]
            ELSE IF op[1] = "root" THEN Hold(C, "objs", op[3], x, <<C.docs[x]>>)
            ELSE Hold(C, "vals", op[4], x, DocGet(C.docs[x], op[3]))
       [] op[1] \in {"read", "asobj", "asseq", "vget"} ->
            IF x \notin DOMAIN C.vals THEN skip
            ELSE IF op[1] = "read" THEN tell(<<v.k, v.g = <<>> /\ v.k = "none", v.g, IF v.k = "scalar" THEN Opt(v.t) ELSE <<>>>>)
            ELSE IF op[1] = "asobj" THEN Hold(C, "objs", op[3], vd, Only(v, "obj"))
            ELSE IF op[1] = "asseq" THEN Hold(C, "seqs", op[3], vd, Only(v, "seq"))
            ELSE Hold(C, "vals", op[4], vd, Get(v, op[3]))
       [] op[1] \in {"olen", "oget", "okey", "oval"} ->
            IF x \notin DOMAIN C.objs THEN skip
            ELSE IF op[1] = "olen" THEN tell(Len(o.e))
            ELSE IF op[1] = "oget" THEN Hold(C, "vals", op[4], od, ObjGet(o, op[3]))
            ELSE LET e == Nth(o.e, op[3]) IN Hold(C, "vals", op[4], od, IF e = <<>> THEN <<>> ELSE <<e[1][IF op[1] = "okey" THEN 1 ELSE 2]>>)
       [] op[1] \in {"slen", "sget"} ->
            IF x \notin DOMAIN C.seqs THEN skip
            ELSE IF op[1] = "slen" THEN tell(Len(s.i)) ELSE Hold(C, "vals", op[4], C.seqs[x][1], Nth(s.i, op[3]))
=============================================================================
