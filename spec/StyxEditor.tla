------------------------------- MODULE StyxEditor ------------------------------
(***************************************************************************)
(* What an editor is told about a text: positions, diagnostics, symbols,    *)
(* semantic tokens and links.  Positions are <<line, column>>, columns      *)
(* counted in UTF-16 units; offsets are numbers of characters before.       *)
(***************************************************************************)
EXTENDS StyxSchema
CST == INSTANCE StyxCst

EndsLine(cs, j) == cs[j] = 10 \/ (cs[j] = 13 /\ At(cs, j + 1) # 10)
Units(cs, a, b) == (b - a) + Cardinality({j \in (a + 1)..b : cs[j] > 65535})    \* of characters a+1..b
\* the offsets at which lines start
LineStarts(cs) == <<0>> \o SelectSeq([j \in 1..Len(cs) |-> j], LAMBDA j : EndsLine(cs, j))
LineOf(L, i) == CHOOSE k \in 1..Len(L) : L[k] <= i /\ (k = Len(L) \/ L[k + 1] > i)
Pos(cs, L, o) == LET i == IF o > Len(cs) THEN Len(cs) ELSE o
                     k == LineOf(L, i) IN <<k - 1, Units(cs, L[k], i)>>
Range(cs, L, s, e) == Pos(cs, L, s) \o Pos(cs, L, e)

\* the offset of a position: in the line, or its end when the line is shorter
\* (within a pair of units: after it), the end of the text after the last line
Back(cs, L, line, col) ==
  IF line >= Len(L) THEN Len(cs)
  ELSE LET s == L[line + 1]
           e == IF line + 1 < Len(L) THEN L[line + 2] - 1 ELSE Len(cs)
           z == IF line + 1 < Len(L) /\ e > s /\ cs[e] = 13 /\ cs[e + 1] = 10 THEN e - 1 ELSE e
           c == {i \in s..z : Units(cs, s, i) >= col}
       IN IF c = {} THEN z ELSE CHOOSE i \in c : \A j \in c : i <= j

---------------------------------------------------------------------------
\* The walk of the syntax tree with the nodes that each step is inside of:
\* <<step, kinds of the enclosing nodes, innermost first>>
RECURSIVE Inside(_, _, _)
Inside(W, i, st) ==
  IF i > Len(W) THEN <<>>
  ELSE IF W[i][1] = "/" THEN Inside(W, i + 1, Tail(st))
  ELSE <<<<W[i], st>>>> \o Inside(W, i + 1, IF W[i][1] \in CST!Inner THEN <<W[i][1]>> \o st ELSE st)

\* Semantic tokens: what a leaf of the tree is in the document
Scalars == {"BARE_SCALAR", "QUOTED_SCALAR", "RAW_SCALAR"}
Kin(st, n) == IF n <= Len(st) THEN st[n] ELSE ""
\* inside of the atom that is the key of an entry of an object
KeyAtom(st) == Kin(st, 2) = "KEY" /\ Kin(st, 4) # "SEQUENCE"
Role(k, st) ==
  CASE k \in {"LINE_COMMENT", "DOC_COMMENT"} -> IF Kin(st, 1) \in {"KEY", "ATTRIBUTE"} THEN "" ELSE "comment"    \* where a value is due: an error
    [] k \in Scalars -> IF Kin(st, 1) = "ATTRIBUTE" \/ (Kin(st, 1) = "SCALAR" /\ KeyAtom(st)) THEN "property"
                        ELSE IF Kin(st, 1) = "SCALAR" THEN "string" ELSE ""
    [] k = "TAG_TOKEN" -> IF KeyAtom(st) THEN "property" ELSE "type"
    [] k = "AT" -> IF Kin(st, 1) = "UNIT" THEN "type" ELSE ""
    [] k = "GT" -> IF Kin(st, 1) = "ATTRIBUTE" THEN "operator" ELSE ""
    [] k \in {"HEREDOC_START", "HEREDOC_END"} -> "operator"
    [] OTHER -> ""

\* the lines that a range of characters covers, without their ends: <<s, e>>
RECURSIVE Parts(_, _, _, _)
Parts(cs, s, i, e) ==
  IF i >= e \/ cs[i + 1] \in {10, 13}
  THEN (IF i > s THEN << <<s, i>> >> ELSE <<>>) \o (IF i >= e THEN <<>> ELSE Parts(cs, i + 1, i + 1, e))
  ELSE Parts(cs, s, i + 1, e)

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

SemTokens(cs, L, I) ==        \* <<line, column, length, type, documentation>>
  Flat([j \in 1..Len(I) |->
    LET w == I[j][1]
        r == Role(w[1], I[j][2])
        ps == IF r = "" THEN <<>> ELSE Parts(cs, w[2], w[2], w[3])
    IN [q \in 1..Len(ps) |-> Pos(cs, L, ps[q][1]) \o
         <<Units(cs, ps[q][1], ps[q][2]), r, w[1] = "DOC_COMMENT">>]])

HiSpans(I) ==                  \* <<s, e, type, documentation>>
  Flat([j \in 1..Len(I) |->
    LET w == I[j][1]
        r == IF w[1] = "HEREDOC_CONTENT" THEN "string" ELSE Role(w[1], I[j][2])
    IN IF r = "" THEN <<>> ELSE << <<w[2], w[3], r, w[1] = "DOC_COMMENT">> >>])

---------------------------------------------------------------------------
\* Warnings found in the syntax tree.  Children: the steps directly below step i
RECURSIVE KidsFrom(_, _, _)
KidsFrom(W, i, d) ==           \* d: depth below the node
  IF W[i][1] = "/" THEN (IF d = 0 THEN <<>> ELSE KidsFrom(W, i + 1, d - 1))
  ELSE (IF d = 0 THEN <<i>> ELSE <<>>) \o KidsFrom(W, i + 1, IF W[i][1] \in CST!Inner THEN d + 1 ELSE d)
Kids(W, i) == KidsFrom(W, i + 1, 0)
KidOf(W, i, kind) == SelectSeq(Kids(W, i), LAMBDA j : W[j][1] = kind)

\* the text of a quoted key: escapes of one letter resolved, others kept
RECURSIVE Plain(_)
Plain(t) ==
  IF t = <<>> THEN <<>>
  ELSE IF t[1] # 92 THEN <<t[1]>> \o Plain(Tail(t))
  ELSE IF Len(t) = 1 THEN t
  ELSE (CASE t[2] = 110 -> <<10>> [] t[2] = 114 -> <<13>> [] t[2] = 116 -> <<9>>
          [] t[2] \in {92, 34} -> <<t[2]>> [] OTHER -> <<92, t[2]>>) \o Plain(SubSeq(t, 3, Len(t)))
Unquoted(t) == IF Len(t) >= 2 /\ t[Len(t)] = 34 THEN SubSeq(t, 2, Len(t) - 1) ELSE t

\* <<text, is a path>> of the key at step i, <<>> when it has no text
KeyText(cs, W, i) ==
  LET s == KidOf(W, i, "SCALAR") IN
  IF s = <<>> \/ Kids(W, i)[1] # s[1] THEN <<>>
  ELSE LET l == W[s[1] + 1]
           t == SubSeq(cs, l[2] + 1, l[3])
           x == IF l[1] = "QUOTED_SCALAR" THEN Plain(Unquoted(t)) ELSE t
       IN IF x = <<>> THEN <<>> ELSE <<x, l[1] # "QUOTED_SCALAR" /\ \E j \in 1..Len(t) : t[j] = 46>>

Warnings(cs, W) ==             \* <<s, e>>
  Flat([i \in 1..Len(W) |->
    IF W[i][1] \notin {"DOCUMENT", "OBJECT"} THEN <<>>
    ELSE LET kids == Kids(W, i)
             mixed == W[i][1] = "OBJECT" /\ (\E j \in 1..Len(kids) : W[kids[j]][1] = "COMMA")
                                         /\ (\E j \in 1..Len(kids) : W[kids[j]][1] = "NEWLINE")
             ents == KidOf(W, i, "ENTRY")
             ks == Flat([j \in 1..Len(ents) |-> LET k == KidOf(W, ents[j], "KEY") IN IF k = <<>> THEN <<>> ELSE <<k[1]>>])
             tx == [j \in 1..Len(ks) |-> KeyText(cs, W, ks[j])]
         IN (IF mixed THEN << <<W[i][2], W[i][3]>> >> ELSE <<>>) \o
            Flat([j \in 1..Len(ks) |-> IF tx[j] # <<>> /\ \E q \in 1..(j - 1) : tx[q] = tx[j]
                                       THEN << <<W[ks[j]][2], W[ks[j]][3]>> >> ELSE <<>>])])

---------------------------------------------------------------------------
\* The schema of a document: its declarations are not part of what is checked
IsDecl(e) == e[1].g # <<>> /\ TagOf(e[1]) = W_schema
Decls(doc) == SelectSeq(doc.e, IsDecl)
Known(e) == \/ IsUnitV(e[2])
            \/ IsText(e[2])
            \/ /\ e[2].k = "obj"
               /\ \A w \in {<<105, 100>>, <<99, 108, 105>>} :
                    EntryOf(e[2].e, w) # 0 /\ IsText(e[2].e[EntryOf(e[2].e, w)][2])
\* <<>> or the first declaration that says something
Decl(doc) == LET d == SelectSeq(Decls(doc), Known) IN IF d = <<>> THEN <<>> ELSE <<d[1][2]>>
Undeclared(doc) == [doc EXCEPT !.e = SelectSeq(@, LAMBDA e : ~IsDecl(e))]

\* the value at a path of names, to point at it
RECURSIVE AtPath(_, _)
AtPath(v, p) ==
  IF p = <<>> THEN <<v>>
  ELSE IF v.k # "obj" THEN <<>>
  ELSE LET d == IF \E j \in 1..Len(p) : p[j] = 46 THEN CHOOSE j \in 1..Len(p) : p[j] = 46 /\ \A q \in 1..(j - 1) : p[q] # 46 ELSE 0
           seg == IF d = 0 THEN p ELSE SubSeq(p, 1, d - 1)
           rest == IF d = 0 THEN <<>> ELSE SubSeq(p, d + 1, Len(p))
           js == {j \in 1..Len(v.e) : IsText(v.e[j][1]) /\ v.e[j][1].t = seg}
       IN IF js = {} THEN <<>> ELSE AtPath(v.e[CHOOSE j \in js : \A q \in js : j <= q][2], rest)

\* Diagnostics: <<severity, source>> \o range, in any order
\* file: <<>> when the schema's file cannot be read or is no schema, <<types>> otherwise
\* name: the file's name
Diagnostics(cs, L, W, errs, E, name, file) ==
  LET bad == HasErr(E)
      doc == TreeOf(E)
      decl == Decl(doc)
      start == <<0, 0, 0, 1>>
      point(sp, path) ==
        IF sp # <<>> THEN Range(cs, L, sp[1], sp[2])
        ELSE LET v == AtPath(doc, path) IN
             IF v # <<>> /\ v[1].sp # <<>> THEN Range(cs, L, v[1].sp[1], v[1].sp[2]) ELSE start
      warns == Warnings(cs, W)
  IN [j \in 1..Len(errs) |-> <<1, "styx">> \o Range(cs, L, errs[j][1], errs[j][1] + 1)] \o
     (IF bad THEN LET f == FirstErr(E) IN << <<1, "styx">> \o Range(cs, L, f[3], f[4]) >> ELSE <<>>) \o
     [j \in 1..Len(warns) |-> <<2, "styx">> \o Range(cs, L, warns[j][1], warns[j][2])] \o
     (IF bad \/ decl = <<>> THEN <<>>
      ELSE IF IsUnitV(decl[1]) THEN <<>>
      ELSE IF ~IsText(decl[1]) \/ decl[1].t # name \/ file = <<>> THEN << <<1, "styx-schema">> \o start >>
      ELSE LET v == Verdict(file[1], Undeclared(doc)) IN
           [j \in 1..Len(v.e) |-> <<1, "styx-schema">> \o point(v.e[j][3], v.e[j][2])] \o
           [j \in 1..Len(v.w) |-> <<2, "styx-schema">> \o (IF v.w[j][2] # <<>> THEN Range(cs, L, v.w[j][2][1], v.w[j][2][2]) ELSE start)])

\* links: the declaration of a schema that can be read
Links(cs, L, E, name, file) ==
  IF HasErr(E) THEN << <<-1>> >>
  ELSE LET doc == TreeOf(E)
           ds == Decls(doc)
           decl == Decl(doc)
       IN IF decl = <<>> \/ file = <<>> THEN <<>>
          ELSE IF ~IsText(decl[1]) \/ decl[1].t # name THEN <<>>
          ELSE << Range(cs, L, ds[1][2].sp[1], ds[1][2].sp[2]) >>

---------------------------------------------------------------------------
\* Symbols: entries with a name, as <<name, kind, detail>> \o <<range, range of the key, children>>
RECURSIVE Symbols(_, _, _)
Symbols(cs, L, v) ==
  LET es == SelectSeq(v.e, LAMBDA e : IsText(e[1])) IN
  [j \in 1..Len(es) |->
    LET k == es[j][1]
        x == es[j][2]
        src == SubSeq(cs, x.sp[1] + 1, x.sp[2])
        what == CASE x.k = "obj" -> <<"object", <<>> >>
                  [] x.k = "seq" -> <<"array", <<0, 97, 114, 114, 97, 121>> >>
                  [] x.k = "scalar" /\ x.g = <<>> -> <<"string", <<0>> \o src>>
                  [] IsUnitV(x) -> <<"null", <<0, 64>> >>
                  [] OTHER -> <<"variable", <<0>> \o src>>
    IN <<k.t, what[1], what[2], Range(cs, L, k.sp[1], x.sp[2]), Range(cs, L, k.sp[1], k.sp[2]),
         IF x.k = "obj" THEN Symbols(cs, L, x) ELSE <<>> >>]
SymbolAnswer(cs, L, E) == IF HasErr(E) THEN <<>> ELSE Symbols(cs, L, TreeOf(E))
=============================================================================
