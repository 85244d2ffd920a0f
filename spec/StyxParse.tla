------------------------------ MODULE StyxParse ------------------------------
(***************************************************************************)
(* The Styx parser as a machine over the lexemes of a document.  RootStep  *)
(* is one step at the top level (one entry, comment, doc comment, brace or *)
(* end of input); each step appends events.  Atoms below the top level are *)
(* read by recursive descent.                                              *)
(*                                                                         *)
(* Event: <<kind, name, start, end, tag, text>> with 0-based character     *)
(* spans.  For keys, tag/text are <<>> when absent and <<0>> \o text       *)
(* otherwise.                                                              *)
(***************************************************************************)
EXTENDS StyxLex

Ev(k, n, s, e, g, t) == <<k, n, s, e, g, t>>
ErrEv(n, s, e, t) == <<"Error", n, s, e, <<>>, t>>
CommentEv(x) == Ev("Comment", "", x.s, x.e, <<>>, x.t)
DocLine(t) == IF At(t, 4) = 32 THEN SubSeq(t, 5, Len(t)) ELSE SubSeq(t, 4, Len(t))
DocEv(x) == Ev("DocComment", "", x.s, x.e, <<>>, DocLine(x.t))

L_(L, i) == IF i <= Len(L) THEN L[i] ELSE L[Len(L)]

RECURSIVE JoinWith(_, _, _)
JoinWith(ss, sep, i) ==
  IF i > Len(ss) THEN <<>>
  ELSE IF i = Len(ss) THEN ss[i] ELSE ss[i] \o sep \o JoinWith(ss, sep, i + 1)

RECURSIVE Split(_, _, _, _)
Split(t, c, i, cur) ==
  IF i > Len(t) THEN <<cur>>
  ELSE IF t[i] = c THEN <<cur>> \o Split(t, c, i + 1, <<>>)
  ELSE Split(t, c, i + 1, Append(cur, t[i]))

Has(t, c) == \E i \in 1..Len(t) : t[i] = c

----------------------------------------------------------------------------
(* Key identity (entry.key-equality) and the path history of one object.   *)
(* A key identity is a sequence of integers so that TLC can compare any    *)
(* two of them.                                                            *)

ScalarId(t) == <<1>> \o t
UnitId == <<2>>
TagId(name, pay) == <<3, Len(name)>> \o name \o pay

RECURSIVE KeyId(_)
KeyId(a) ==
  CASE a.c = "Scalar" -> ScalarId(a.t)
    [] a.c = "Unit" -> UnitId
    [] a.c = "Tag" -> TagId(a.t, IF a.pay = <<>> THEN <<>> ELSE KeyId(a.pay[1]))
    [] a.c = "Object" -> ScalarId(<<123, 125>>)
    [] a.c = "Attrs" -> ScalarId(<<123, 125>>)
    [] a.c = "Sequence" -> ScalarId(<<40, 41>>)
    [] a.c = "Esc" -> ScalarId(a.t)
    [] a.c = "Err" -> ScalarId(<<60, 101, 114, 114, 111, 114, 62>>)

KeyShow(id) ==
  IF id[1] = 1 THEN SubSeq(id, 2, Len(id))
  ELSE IF id[1] = 2 THEN <<64>>
  ELSE <<64>> \o SubSeq(id, 3, 2 + id[2])

(* Path state: segs = the open path; each segment knows its closed children *)
EmptyPath == [segs |-> <<>>, roots |-> {}]
Closed(set, key) == \E c \in set : c[1] = key
ClosedSpan(set, key) == (CHOOSE c \in set : c[1] = key)[2]

RECURSIVE Common(_, _, _)
Common(segs, path, i) ==
  IF i <= Len(segs) /\ i <= Len(path) /\ segs[i].key = path[i] THEN Common(segs, path, i + 1) ELSE i - 1

(* Close everything beyond the first n segments *)
RECURSIVE CloseTo(_, _)
CloseTo(ps, n) ==
  IF Len(ps.segs) <= n THEN ps
  ELSE LET m == Len(ps.segs)
           z == ps.segs[m]
           rest == SubSeq(ps.segs, 1, m - 1)
       IN IF m = 1 THEN CloseTo([segs |-> <<>>, roots |-> ps.roots \union {<<z.key, z.sp>>}], n)
          ELSE CloseTo([ps EXCEPT !.segs = [rest EXCEPT ![m - 1].closed =
                                              @ \union {<<z.key, z.sp>>}]], n)

PathText(segs, n, last) ==
  JoinWith([i \in 1..n |-> KeyShow(segs[i].key)] \o last, <<46>>, 1)

(* Open the segments i.. of the path; result [err, ps] with err = <<>> or  *)
(* <<name, text>>.                                                         *)
RECURSIVE OpenFrom(_, _, _, _, _)
OpenFrom(ps, path, i, sp, kind) ==
  IF i > Len(path) THEN [err |-> <<>>, ps |-> ps]
  ELSE
  LET last == i = Len(path)
      seg == [key |-> path[i], sp |-> sp, kind |-> IF last THEN kind ELSE "Object", closed |-> {}]
  IN IF i = 1
     THEN IF Closed(ps.roots, path[1])
          THEN [err |-> IF last THEN <<"DuplicateKey", ClosedSpan(ps.roots, path[1])>>
                        ELSE <<"ReopenedPath", KeyShow(path[1])>>, ps |-> ps]
          ELSE OpenFrom([ps EXCEPT !.segs = <<seg>>], path, 2, sp, kind)
     ELSE LET par == ps.segs[i - 1] IN
          IF par.kind = "Terminal"
          THEN [err |-> <<"NestIntoTerminal", PathText(ps.segs, Len(ps.segs), <<>>)>>, ps |-> ps]
          ELSE IF Closed(par.closed, path[i])
          THEN [err |-> <<"ReopenedPath", PathText(ps.segs, i - 1, <<KeyShow(path[i])>>)>>, ps |-> ps]
          ELSE OpenFrom([ps EXCEPT !.segs = Append(@, seg)], path, i + 1, sp, kind)

(* One entry with the given path (key identities), span and value kind.    *)
PathStep(ps, path, sp, kind) ==
  LET c == Common(ps.segs, path, 1) IN
  IF c = Len(path) THEN [err |-> <<"DuplicateKey", ps.segs[c].sp>>, ps |-> ps]
  ELSE LET r == OpenFrom(CloseTo(ps, c), path, c + 1, sp, kind) IN
       IF r.err # <<>> THEN r
       ELSE [err |-> <<>>, ps |-> [r.ps EXCEPT !.segs[Len(r.ps.segs)].kind = kind]]

----------------------------------------------------------------------------
(* Atoms *)

ScalarAtom(n, s, e, t) == [c |-> "Scalar", n |-> n, s |-> s, e |-> e, t |-> t]
ErrAtom(n, s, e) == [c |-> "Err", n |-> n, s |-> s, e |-> e]
UnitAtom(s, e) == [c |-> "Unit", s |-> s, e |-> e]

ValueKind(atoms) ==
  IF Len(atoms) >= 2 /\ atoms[2].c \in {"Object", "Attrs"} THEN "Object" ELSE "Terminal"

DottedKey(a) == a.c = "Scalar" /\ a.n = "Bare" /\ Has(a.t, 46)

(* The segments of a dotted key as atoms *)
RECURSIVE SegAtoms(_, _, _)
SegAtoms(parts, i, s) ==
  IF i > Len(parts) THEN <<>>
  ELSE <<ScalarAtom("Bare", s, s + Len(parts[i]), parts[i])>>
       \o SegAtoms(parts, i + 1, s + Len(parts[i]) + 1)

DotSegs(a) == SegAtoms(Split(a.t, 46, 1, <<>>), 1, a.s)

RECURSIVE NestDotted(_, _, _)
NestDotted(segs, e, v) ==      \* segs: inner keys; wrap v from the innermost outwards
  IF segs = <<>> THEN v
  ELSE LET z == segs[Len(segs)] IN
       NestDotted(SubSeq(segs, 1, Len(segs) - 1), e,
         [c |-> "Object", s |-> z.s, e |-> e,
          ents |-> <<[key |-> z, val |-> v, doc |-> <<>>, many |-> <<>>]>>,
          kerr |-> <<>>, dang |-> <<>>, unc |-> FALSE])

(* Tag chain segments of the name: sequence of [t, s, e] spans *)
RECURSIVE ChainSegs(_, _, _, _)
ChainSegs(t, i, cur, s) ==
  IF i > Len(t) THEN <<[t |-> cur, s |-> s, e |-> s + 1 + Len(cur)]>>
  ELSE IF t[i] = 47 /\ At(t, i + 1) = 64
  THEN <<[t |-> cur, s |-> s, e |-> s + 1 + Len(cur)]>> \o ChainSegs(t, i + 2, <<>>, s + 2 + Len(cur))
  ELSE ChainSegs(t, i + 1, Append(cur, t[i]), s)

RECURSIVE BuildChain(_, _, _)
BuildChain(segs, i, pay) ==
  LET p == IF i < Len(segs) THEN <<BuildChain(segs, i + 1, pay)>> ELSE pay
  IN [c |-> "Tag", t |-> segs[i].t, s |-> segs[i].s,
      e |-> IF p = <<>> THEN segs[i].e ELSE p[1].e, pay |-> p]

(* ParseAtom: the lexeme i is the first of the atom.                       *)
(* Result: [a |-> atom, i |-> next, ev |-> events already put out]         *)
RECURSIVE ParseAtom(_, _, _)
RECURSIVE ParseObject(_, _, _, _)
RECURSIVE ParseSeq(_, _, _, _)
RECURSIVE ParseAttrs(_, _, _, _, _)
RECURSIVE Collect(_, _, _, _, _, _)

ParseAtom(cs, L, i) ==
  LET x == L_(L, i) IN
  CASE x.k = "Scalar" -> [a |-> ScalarAtom(x.n, x.s, x.e, x.t), i |-> i + 1, ev |-> <<>>]
    [] x.k = "Unit" -> [a |-> UnitAtom(x.s, x.e), i |-> i + 1, ev |-> <<>>]
    [] x.k = "Tag" ->
         LET segs == ChainSegs(x.t, 1, <<>>, x.s)
             y == L_(L, i + 1)
             take == IF Len(segs) > 1
                     THEN y.k \in {"Scalar", "Unit", "Tag", "{", "("} /\ y.s = x.e
                     ELSE x.p
         IN IF take
            THEN LET r == ParseAtom(cs, L, i + 1)
                 IN [a |-> BuildChain(segs, 1, <<r.a>>), i |-> r.i, ev |-> r.ev]
            ELSE [a |-> BuildChain(segs, 1, <<>>), i |-> i + 1, ev |-> <<>>]
    [] x.k = "{" -> ParseObject(cs, L, i + 1,
                      [s |-> x.s, e |-> x.e, ents |-> <<>>, ps |-> EmptyPath, kerr |-> <<>>,
                       docs |-> <<>>, ev |-> <<>>])
    [] x.k = "(" -> ParseSeq(cs, L, i + 1,
                      [s |-> x.s, e |-> x.e, els |-> <<>>, commas |-> <<>>, ev |-> <<>>])
    [] x.k = "AttrKey" -> ParseAttrs(cs, L, i, <<>>, <<>>)
    [] x.k = "Error" ->
         IF x.n = "escape"
         THEN [a |-> [c |-> "Esc", s |-> x.s, e |-> x.e, t |-> SubSeq(cs, x.s + 2, x.e - 1)],
               i |-> i + 1, ev |-> <<>>]
         ELSE [a |-> ErrAtom(x.n, x.s, x.e), i |-> i + 1, ev |-> <<>>]
    [] x.k = "Eof" -> [a |-> ErrAtom("unexpected", Len(cs), Len(cs)), i |-> i, ev |-> <<>>]
    [] OTHER -> [a |-> ErrAtom("unexpected", x.s, x.e), i |-> i + 1, ev |-> <<>>]

ParseSeq(cs, L, i, q) ==
  LET x == L_(L, i)
      fin(e, unc, j) == [a |-> [c |-> "Sequence", s |-> q.s, e |-> e, els |-> q.els,
                                commas |-> q.commas, unc |-> unc], i |-> j, ev |-> q.ev]
  IN CASE x.k = "Eof" -> fin(q.e, TRUE, i)
       [] x.k = ")" -> fin(x.e, FALSE, i + 1)
       [] x.k \in {"Newline", "Comment", "DocComment"} -> ParseSeq(cs, L, i + 1, q)
       [] x.k = "Comma" -> ParseSeq(cs, L, i + 1, [q EXCEPT !.commas = Append(@, <<x.s, x.e>>)])
       [] OTHER -> LET r == ParseAtom(cs, L, i)
                   IN ParseSeq(cs, L, r.i, [q EXCEPT !.els = Append(@, r.a), !.ev = @ \o r.ev])

ParseAttrs(cs, L, i, attrs, ev) ==
  LET x == L_(L, i) IN
  IF x.k = "AttrKey"
  THEN LET r == ParseAtom(cs, L, i + 1)
       IN ParseAttrs(cs, L, r.i, Append(attrs, [key |-> x.t, s |-> x.s, e |-> x.e - 1, v |-> r.a]),
                     ev \o r.ev)
  ELSE [a |-> [c |-> "Attrs", s |-> attrs[1].s, e |-> attrs[Len(attrs)].v.e, attrs |-> attrs],
        i |-> i, ev |-> ev]

(* The atoms of one entry: [atoms, i, ev] *)
Collect(cs, L, i, atoms, ev, dummy) ==
  LET x == L_(L, i) IN
  IF atoms # <<>> /\ x.k \in {"Eof", "Newline", "Comma", "}", ")", "DocComment"}
  THEN [atoms |-> atoms, i |-> i, ev |-> ev]
  ELSE IF atoms # <<>> /\ x.k = "Comment"
  THEN [atoms |-> atoms, i |-> i + 1, ev |-> Append(ev, CommentEv(x))]
  ELSE LET r == ParseAtom(cs, L, i)
           tight == x.k \in {"{", "("} /\ Len(atoms) = 1 /\ atoms[1].c = "Scalar"
                    /\ atoms[1].n = "Bare" /\ atoms[1].e = x.s
           pre == IF tight THEN <<ErrEv("MissingWhitespaceBeforeBlock", x.s, x.e, <<>>)>> ELSE <<>>
       IN Collect(cs, L, r.i, Append(atoms, r.a), ev \o pre \o r.ev, dummy)

(* Key check shared by every object: [err |-> <<>> or <<name, s, e, text>>, ps] *)
KeyCheck(ps, atoms) ==
  LET k == atoms[1] IN
  IF DottedKey(k) /\ \E j \in 1..Len(DotSegs(k)) : DotSegs(k)[j].t = <<>>
  THEN [err |-> <<"InvalidKey", k.s, k.e, <<>>>>, ps |-> ps]
  ELSE LET path == IF DottedKey(k) THEN [j \in 1..Len(DotSegs(k)) |-> KeyId(DotSegs(k)[j])]
                   ELSE <<KeyId(k)>>
           r == PathStep(ps, path, <<k.s, k.e>>, ValueKind(atoms))
       IN IF r.err = <<>> THEN [err |-> <<>>, ps |-> r.ps]
          ELSE [err |-> <<r.err[1], k.s, k.e, r.err[2]>>, ps |-> r.ps]

ParseObject(cs, L, i, o) ==
  LET x == L_(L, i)
      fin(e, unc, j) == [a |-> [c |-> "Object", s |-> o.s, e |-> e, ents |-> o.ents, kerr |-> o.kerr,
                                dang |-> [d \in 1..Len(o.docs) |-> <<o.docs[d].s, o.docs[d].e>>],
                                unc |-> unc], i |-> j, ev |-> o.ev]
  IN CASE x.k = "Eof" -> fin(o.e, TRUE, i)
       [] x.k = "}" -> fin(x.e, FALSE, i + 1)
       [] x.k \in {"Newline", "Comma", "Comment"} -> ParseObject(cs, L, i + 1, o)
       [] x.k = "DocComment" -> ParseObject(cs, L, i + 1, [o EXCEPT !.docs = Append(@, x)])
       [] OTHER ->
            LET r == Collect(cs, L, i, <<>>, <<>>, 0)
                k == r.atoms[1]
                v == IF Len(r.atoms) = 1 THEN UnitAtom(k.s, k.e) ELSE r.atoms[2]
                many == IF Len(r.atoms) > 2 THEN <<r.atoms[3].s, r.atoms[3].e>> ELSE <<>>
                doc == IF o.docs = <<>> THEN <<>>
                       ELSE <<Ev("DocComment", "", o.docs[1].s, o.docs[Len(o.docs)].e, <<>>,
                                 JoinWith([d \in 1..Len(o.docs) |-> DocLine(o.docs[d].t)], <<10>>, 1))>>
                chk == KeyCheck(o.ps, r.atoms)
                segs == DotSegs(k)
                ent == IF DottedKey(k)
                       THEN [key |-> segs[1], val |-> NestDotted(Tail(segs), k.e, v), doc |-> doc, many |-> many]
                       ELSE [key |-> k, val |-> v, doc |-> doc, many |-> many]
            IN ParseObject(cs, L, r.i,
                 [o EXCEPT !.ents = Append(@, ent), !.ps = chk.ps, !.docs = <<>>, !.ev = @ \o r.ev,
                           !.kerr = IF chk.err = <<>> THEN @ ELSE Append(@, chk.err)])

----------------------------------------------------------------------------
(* Events of atoms *)

KeyEv(s, e, hasTag, tag, hasText, text, kind) ==
  Ev("Key", kind, s, e, IF hasTag THEN <<0>> \o tag ELSE <<>>, IF hasText THEN <<0>> \o text ELSE <<>>)

RECURSIVE EscEvents(_, _, _, _)
EscEvents(bad, i, base, t) ==
  IF i > Len(bad) THEN <<>>
  ELSE <<ErrEv("InvalidEscape", base + bad[i][1], base + bad[i][2], SubSeq(t, bad[i][1] + 1, bad[i][2]))>>
       \o EscEvents(bad, i + 1, base, t)
EscErrors(a) == EscEvents(BadEscapes(a.t, 1, <<>>), 1, a.s + 1, a.t)

ErrEvents(kerr) == [j \in 1..Len(kerr) |-> ErrEv(kerr[j][1], kerr[j][2], kerr[j][3], kerr[j][4])]
SpanEvents(n, sps) == [j \in 1..Len(sps) |-> ErrEv(n, sps[j][1], sps[j][2], <<>>)]

HdMarkEnd(cs, a) == LET RECURSIVE f(_)
                        f(p) == IF p > a.e THEN a.e ELSE IF cs[p] = 10 THEN p ELSE f(p + 1)
                    IN f(a.s + 1)

EmitKey(a) ==
  CASE a.c = "Scalar" -> <<KeyEv(a.s, a.e, FALSE, <<>>, TRUE, a.t, a.n)>>
    [] a.c = "Unit" -> <<KeyEv(a.s, a.e, FALSE, <<>>, FALSE, <<>>, "Bare")>>
    [] a.c = "Tag" ->
         IF a.pay = <<>> THEN <<KeyEv(a.s, a.e, TRUE, a.t, FALSE, <<>>, "Bare")>>
         ELSE LET p == a.pay[1] IN
              CASE p.c = "Scalar" -> <<KeyEv(a.s, a.e, TRUE, a.t, TRUE, p.t, p.n)>>
                [] p.c = "Unit" -> <<KeyEv(a.s, a.e, TRUE, a.t, FALSE, <<>>, "Bare")>>
                [] OTHER -> <<ErrEv("InvalidKey", p.s, p.e, <<>>)>>
    [] a.c = "Esc" -> EscErrors(a) \o
         <<KeyEv(a.s, a.e, FALSE, <<>>, TRUE, UnescapeLoose(a.t, 1, <<>>), "Quoted")>>
    [] a.c = "Err" -> <<ErrEv(IF a.n = "tagname" THEN "InvalidTagName" ELSE "InvalidKey", a.s, a.e, <<>>)>>
    [] OTHER -> <<ErrEv("InvalidKey", a.s, a.e, <<>>)>>

RECURSIVE EmitVal(_, _)
RECURSIVE EmitVals(_, _, _)
RECURSIVE EmitEnts(_, _, _)
RECURSIVE EmitAttrs(_, _, _, _)

EmitVal(cs, a) ==
  CASE a.c = "Scalar" -> <<Ev("Scalar", a.n, a.s, a.e, <<>>, a.t)>>
    [] a.c = "Unit" -> <<Ev("Unit", "", a.s, a.e, <<>>, <<>>)>>
    [] a.c = "Tag" -> <<Ev("TagStart", "", a.s, a.e, a.t, <<>>)>>
                      \o (IF a.pay = <<>> THEN <<>> ELSE EmitVal(cs, a.pay[1]))
                      \o <<Ev("TagEnd", "", a.s, a.e, <<>>, <<>>)>>
    [] a.c = "Object" ->
         <<Ev("ObjectStart", "", a.s, a.e, <<>>, <<>>)>>
         \o (IF a.unc THEN <<ErrEv("UnclosedObject", a.s, a.e, <<>>)>> ELSE <<>>)
         \o ErrEvents(a.kerr) \o SpanEvents("DanglingDocComment", a.dang)
         \o EmitEnts(cs, a.ents, 1)
         \o <<Ev("ObjectEnd", "", a.s, a.e, <<>>, <<>>)>>
    [] a.c = "Sequence" ->
         <<Ev("SequenceStart", "", a.s, a.e, <<>>, <<>>)>>
         \o (IF a.unc THEN <<ErrEv("UnclosedSequence", a.s, a.e, <<>>)>> ELSE <<>>)
         \o SpanEvents("CommaInSequence", a.commas)
         \o EmitVals(cs, a.els, 1)
         \o <<Ev("SequenceEnd", "", a.s, a.e, <<>>, <<>>)>>
    [] a.c = "Attrs" ->
         <<Ev("ObjectStart", "", a.s, a.e, <<>>, <<>>)>> \o EmitAttrs(cs, a.attrs, 1, <<>>)
         \o <<Ev("ObjectEnd", "", a.s, a.e, <<>>, <<>>)>>
    [] a.c = "Esc" -> EscErrors(a) \o
         <<Ev("Scalar", "Quoted", a.s, a.e, <<>>, UnescapeLoose(a.t, 1, <<>>))>>
    [] a.c = "Err" -> <<ErrEv(IF a.n = "tagname" THEN "InvalidTagName"
                              ELSE IF a.n = "novalue" THEN "ExpectedValue" ELSE "UnexpectedToken",
                              a.s, a.e, <<>>)>>

EmitVals(cs, els, i) == IF i > Len(els) THEN <<>> ELSE EmitVal(cs, els[i]) \o EmitVals(cs, els, i + 1)

EmitEnts(cs, ents, i) ==
  IF i > Len(ents) THEN <<>>
  ELSE LET t == ents[i]
           k == t.key
           v == t.val
       IN t.doc
          \o (IF k.c = "Scalar" /\ k.n = "Heredoc"
              THEN <<ErrEv("InvalidKey", k.s, HdMarkEnd(cs, k), <<>>)>> ELSE <<>>)
          \o <<Ev("EntryStart", "", k.s, k.e, <<>>, <<>>)>>
          \o EmitKey(k) \o EmitVal(cs, v)
          \o (IF t.many = <<>> THEN <<Ev("EntryEnd", "", v.s, v.e, <<>>, <<>>)>>
              ELSE <<ErrEv("TooManyAtoms", t.many[1], t.many[2], <<>>),
                     Ev("EntryEnd", "", t.many[1], t.many[2], <<>>, <<>>)>>)
          \o EmitEnts(cs, ents, i + 1)

EmitAttrs(cs, as, i, seen) ==
  IF i > Len(as) THEN <<>>
  ELSE LET t == as[i]
           dup == {j \in 1..(i - 1) : as[j].key = t.key}
           first == CHOOSE j \in dup : \A q \in dup : j <= q
       IN (IF dup = {} THEN <<>>
           ELSE <<ErrEv("DuplicateKey", t.s, t.e, <<as[first].s, as[first].e>>)>>)
          \o <<Ev("EntryStart", "", t.s, t.e, <<>>, <<>>),
               KeyEv(t.s, t.e, FALSE, <<>>, TRUE, t.key, "Bare")>>
          \o EmitVal(cs, t.v)
          \o <<Ev("EntryEnd", "", t.v.s, t.v.e, <<>>, <<>>)>>
          \o EmitAttrs(cs, as, i + 1, seen)

----------------------------------------------------------------------------
(* Root entries *)

EmitSimple(cs, atoms) ==
  LET k == atoms[1]
      z == atoms[Len(atoms)]
  IN <<Ev("EntryStart", "", k.s, k.e, <<>>, <<>>)>> \o EmitKey(k)
     \o (IF Len(atoms) = 1 THEN <<Ev("Unit", "", k.s, k.e, <<>>, <<>>)>> ELSE EmitVal(cs, atoms[2]))
     \o (IF Len(atoms) > 2 THEN <<ErrEv("TooManyAtoms", atoms[3].s, atoms[3].e, <<>>)>> ELSE <<>>)
     \o <<Ev("EntryEnd", "", z.s, z.e, <<>>, <<>>)>>

RECURSIVE DotOpen(_, _)
DotOpen(segs, i) ==
  IF i > Len(segs) THEN <<>>
  ELSE <<Ev("EntryStart", "", segs[i].s, segs[i].e, <<>>, <<>>),
         KeyEv(segs[i].s, segs[i].e, FALSE, <<>>, TRUE, segs[i].t, "Bare")>>
       \o (IF i < Len(segs) THEN <<Ev("ObjectStart", "", segs[i].s, segs[i].e, <<>>, <<>>)>> ELSE <<>>)
       \o DotOpen(segs, i + 1)

RECURSIVE DotClose(_, _, _)
DotClose(n, s, e) ==
  IF n = 1 THEN <<Ev("EntryEnd", "", s, e, <<>>, <<>>)>>
  ELSE <<Ev("EntryEnd", "", s, e, <<>>, <<>>), Ev("ObjectEnd", "", s, e, <<>>, <<>>)>> \o DotClose(n - 1, s, e)

EmitDotted(cs, atoms) ==
  LET k == atoms[1]
      segs == DotSegs(k)
  IN IF \E j \in 1..Len(segs) : segs[j].t = <<>>
     THEN <<Ev("EntryStart", "", k.s, k.e, <<>>, <<>>), Ev("EntryEnd", "", k.s, k.e, <<>>, <<>>)>>
     ELSE DotOpen(segs, 1)
          \o (IF Len(atoms) = 1 THEN <<Ev("Unit", "", k.s, k.e, <<>>, <<>>)>> ELSE EmitVal(cs, atoms[2]))
          \o (IF Len(atoms) > 2 THEN <<ErrEv("TooManyAtoms", atoms[3].s, atoms[3].e, <<>>)>> ELSE <<>>)
          \o DotClose(Len(segs), k.s, k.e)

(* One root entry: [ps, ev]; explicit tells whether the root has braces *)
RootEntry(cs, atoms, ps, explicit) ==
  LET k == atoms[1]
      hd == IF k.c = "Scalar" /\ k.n = "Heredoc"
            THEN <<ErrEv("InvalidKey", k.s, IF explicit THEN k.e ELSE HdMarkEnd(cs, k), <<>>)>> ELSE <<>>
      chk == KeyCheck(ps, atoms)
      ce == IF chk.err = <<>> THEN <<>> ELSE <<ErrEv(chk.err[1], chk.err[2], chk.err[3], chk.err[4])>>
  IN [ps |-> chk.ps,
      ev |-> hd \o ce \o (IF DottedKey(k) THEN EmitDotted(cs, atoms) ELSE EmitSimple(cs, atoms))]

----------------------------------------------------------------------------
(* The top-level machine.  mode: start, root, obj, after, end              *)

InitState == [mode |-> "start", i |-> 1, doc |-> <<>>, ps |-> EmptyPath, open |-> FALSE, s |-> 0, e |-> 0]

EmptySpanEv(k, p) == Ev(k, "", p, p, <<>>, <<>>)
OpenRootEv(st) == IF st.open THEN <<>> ELSE <<EmptySpanEv("ObjectStart", 0)>>
DangEv(st) == IF st.doc = <<>> THEN <<>> ELSE <<ErrEv("DanglingDocComment", st.doc[1], st.doc[2], <<>>)>>

RootStep(cs, L, st) ==
  LET x == L_(L, st.i)
      nx == [st EXCEPT !.i = @ + 1]
      docEnd == EmptySpanEv("DocumentEnd", Len(cs))
  IN CASE st.mode = "start" ->
            [st |-> [st EXCEPT !.mode = "root"], ev |-> <<EmptySpanEv("DocumentStart", 0)>>]
       [] st.mode \in {"root", "obj"} /\ x.k \in {"Newline", "Comma"} -> [st |-> nx, ev |-> <<>>]
       [] st.mode \in {"root", "obj"} /\ x.k = "Comment" -> [st |-> nx, ev |-> <<CommentEv(x)>>]
       [] st.mode = "root" /\ x.k = "Eof" ->
            [st |-> [st EXCEPT !.mode = "after"],
             ev |-> DangEv(st) \o (IF st.open THEN <<EmptySpanEv("ObjectEnd", 0)>> ELSE <<>>) \o <<docEnd>>]
       [] st.mode = "root" /\ x.k = "DocComment" ->
            [st |-> [nx EXCEPT !.doc = <<x.s, x.e>>, !.open = TRUE], ev |-> OpenRootEv(st) \o <<DocEv(x)>>]
       [] st.mode = "root" /\ x.k = "{" /\ ~st.open ->
            [st |-> [nx EXCEPT !.mode = "obj", !.s = x.s, !.e = x.e],
             ev |-> <<Ev("ObjectStart", "", x.s, x.e, <<>>, <<>>)>>]
       [] st.mode = "obj" /\ x.k = "Eof" ->
            [st |-> [st EXCEPT !.mode = "after"],
             ev |-> DangEv(st) \o <<ErrEv("UnclosedObject", st.s, st.e, <<>>),
                                    Ev("ObjectEnd", "", st.s, st.e, <<>>, <<>>), docEnd>>]
       [] st.mode = "obj" /\ x.k = "}" ->
            [st |-> [nx EXCEPT !.mode = "after", !.doc = <<>>],
             ev |-> <<Ev("ObjectEnd", "", x.s, x.e, <<>>, <<>>)>> \o DangEv(st) \o <<docEnd>>]
       [] st.mode = "obj" /\ x.k = "DocComment" ->
            [st |-> [nx EXCEPT !.doc = <<x.s, x.e>>], ev |-> <<DocEv(x)>>]
       [] st.mode \in {"root", "obj"} ->
            LET r == Collect(cs, L, st.i, <<>>, <<>>, 0)
                q == RootEntry(cs, r.atoms, st.ps, st.mode = "obj")
            IN [st |-> [st EXCEPT !.i = r.i, !.doc = <<>>, !.ps = q.ps, !.open = TRUE],
                ev |-> (IF st.mode = "root" THEN OpenRootEv(st) ELSE <<>>) \o r.ev \o q.ev]
       [] st.mode = "after" /\ x.k \in {"Newline", "Comment"} -> [st |-> nx, ev |-> <<>>]
       [] st.mode = "after" /\ x.k = "Eof" -> [st |-> [st EXCEPT !.mode = "end"], ev |-> <<>>]
       [] st.mode = "after" ->
            LET z == L[Len(L) - 1]
            IN [st |-> [st EXCEPT !.mode = "end", !.i = Len(L)],
                ev |-> <<ErrEv("TrailingContent", x.s, z.e, <<>>)>>]

RECURSIVE RunFrom(_, _, _, _)
RunFrom(cs, L, st, acc) ==
  IF st.mode = "end" THEN acc
  ELSE LET r == RootStep(cs, L, st) IN RunFrom(cs, L, r.st, acc \o r.ev)

(* All events of a document *)
Events(cs) == RunFrom(cs, Lex(cs), InitState, <<>>)

(* Expression mode: one value, leading newlines and comments skipped       *)
RECURSIVE ExprFrom(_, _, _)
ExprFrom(cs, L, i) ==
  LET x == L_(L, i) IN
  IF x.k \in {"Newline", "Comment"} THEN ExprFrom(cs, L, i + 1)
  ELSE IF x.k = "Eof" THEN <<>>
  ELSE LET r == ParseAtom(cs, L, i) IN r.ev \o EmitVal(cs, r.a)
ExprEvents(cs) == ExprFrom(cs, Lex(cs), 1)
=============================================================================
