------------------------------- MODULE StyxEdits -------------------------------
(***************************************************************************)
(* The edits that an editor is offered: what they may do to a document.     *)
(* An edit is <<line, column, line, column, text>>.                         *)
(***************************************************************************)
EXTENDS StyxEditor

\* the edits stand at positions of the text, in order, apart
EditsStand(cs, L, es) ==
  /\ \A j \in 1..Len(es) :
       LET a == Back(cs, L, es[j][1], es[j][2])
           b == Back(cs, L, es[j][3], es[j][4])
       IN a <= b /\ Range(cs, L, a, b) = SubSeq(es[j], 1, 4)
  /\ \A j \in 1..(Len(es) - 1) : Back(cs, L, es[j][3], es[j][4]) <= Back(cs, L, es[j + 1][1], es[j + 1][2])
RECURSIVE Edited(_, _, _)
Edited(cs, L, es) ==
  IF es = <<>> THEN cs
  ELSE LET e == es[Len(es)]
           t == SubSeq(cs, 1, Back(cs, L, e[1], e[2])) \o e[5] \o SubSeq(cs, Back(cs, L, e[3], e[4]) + 1, Len(cs))
       IN Edited(t, L, SubSeq(es, 1, Len(es) - 1))

---------------------------------------------------------------------------
\* Enter: the line of the cursor is indented as its nesting asks, but lines
\* of a text (a heredoc, a string) stay as they are
InText(I, o) ==
  \E j \in 1..Len(I) :
    LET w == I[j][1] IN
    w[1] \notin CST!Inner \cup {"WHITESPACE", "NEWLINE"} /\ w[2] < o /\ o < w[3]
InScalar(W, o) == \E j \in 1..Len(W) : W[j][1] \in {"SCALAR", "HEREDOC"} /\ W[j][2] < o /\ o < W[j][3]
IsClosed(W, i) == \E j \in 1..Len(Kids(W, i)) : W[Kids(W, i)[j]][1] = (IF W[i][1] = "OBJECT" THEN "R_BRACE" ELSE "R_PAREN")
Nesting(W, o) ==
  Cardinality({i \in 1..Len(W) : W[i][1] \in {"OBJECT", "SEQUENCE"} /\ W[i][2] < o /\ (o < W[i][3] \/ (o = W[i][3] /\ ~IsClosed(W, i)))})
\* only blanks between the start of the line and the cursor
AtIndent(cs, s, o) == \A j \in (s + 1)..o : cs[j] \in {9, 32}
\* tab: blanks per level, 0 for a tab
EnterEdits(cs, L, W, I, pos, tab) ==
  LET s == L[pos[1] + 1]
      o == Back(cs, L, pos[1], pos[2])
  IN IF InText(I, s) \/ InScalar(W, s) THEN <<>>
     ELSE << <<pos[1], 0, pos[1], 0, [j \in 1..((IF tab = 0 THEN 1 ELSE tab) * Nesting(W, o)) |-> IF tab = 0 THEN 9 ELSE 32]>> >>

---------------------------------------------------------------------------
\* Filling in fields.  The object at the cursor: the indexes of the entries
\* (negative: of the items) that lead to it, and the keys and items on the way
\* as the schema sees them
Holds3(v, o) == v.sp # <<>> /\ v.sp[1] <= o /\ o <= v.sp[2]
TagStep(v) == IF v.g = <<>> THEN <<>> ELSE << <<"tag", <<64>> \o TagOf(v)>> >>
KeyStep(k) == << <<IF IsText(k) THEN "key" ELSE "odd", IF IsText(k) THEN k.t ELSE <<64>> \o (IF k.g = <<>> THEN <<>> ELSE TagOf(k))>> >>
RECURSIVE ObjectAt(_, _, _, _)
RECURSIVE ObjectIn(_, _, _, _)    \* in a value: <<>> for none
RECURSIVE FirstIn(_, _, _, _, _, _)
FirstIn(n, val(_), o, ix, path, j) ==   \* val: <<step, path, value>> of the j-th
  IF j > n THEN <<>>
  ELSE LET w == val(j)
           x == ObjectIn(w[3], o, Append(ix, w[1]), path \o w[2])
       IN IF x # <<>> THEN x ELSE FirstIn(n, val, o, ix, path, j + 1)
ObjectIn(v, o, ix, path) ==
  LET here == path \o TagStep(v) IN
  IF ~Holds3(v, o) THEN <<>>
  ELSE IF v.k = "obj" THEN <<ObjectAt(v, o, ix, here)>>
  ELSE IF v.k = "seq" THEN FirstIn(Len(v.i), LAMBDA j : <<0 - j, << <<"item", DecText(j - 1), j>> >>, v.i[j]>>, o, ix, here, 1)
  ELSE <<>>
ObjectAt(v, o, ix, path) ==
  LET none == [v EXCEPT !.sp = <<>>]
      x == FirstIn(Len(v.e), LAMBDA j : <<j, KeyStep(v.e[j][1]), IF ix = <<>> /\ IsDecl(v.e[j]) THEN none ELSE v.e[j][2]>>, o, ix, path, 1)
  IN IF x # <<>> THEN x[1] ELSE [v |-> v, ix |-> ix, path |-> path]
Braced(cs, v) == v.sp = <<>> \/ (v.sp[2] > v.sp[1] + 1 /\ cs[v.sp[1] + 1] = 123 /\ cs[v.sp[2]] = 125)

\* behind references and modifiers
RECURSIVE Behind(_, _, _)
Behind(types, s, seen) ==
  CASE s.t \in {"optional", "default", "deprecated", "flatten"} -> Behind(types, s.s, seen)
    [] s.t = "ref" /\ s.x \notin seen /\ Named(types, s.x) # <<>> -> Behind(types, Named(types, s.x)[1], seen \cup {s.x})
    [] OTHER -> s

AllDigits(t) == t # <<>> /\ \A j \in 1..Len(t) : Digit(t[j])
\* the schema at a path: <<schema>>, <<>> when there is none; "?" when the schema leaves a choice
RECURSIVE SchemaAt(_, _, _)
SchemaAt(types, s, path) ==
  LET b == Behind(types, s, {}) IN
  IF path = <<>> THEN <<b>>
  ELSE LET p == path[1] IN
    CASE b.t = "object" ->
           LET r == Inline(types, b.f, {}, <<>>) IN
           IF ~r.ok THEN <<[t |-> "?"]>>
           ELSE LET named == {j \in 1..Len(r.f) : p[1] = "key" /\ r.f[j][1] = <<"name", p[2]>>}
                    pats == {j \in 1..Len(r.f) : r.f[j][1][1] # "name"}
                IN IF p[1] \in {"tag", "item"} \/ (p[1] = "odd" /\ \E j \in 1..Len(r.f) : r.f[j][1] = <<"name", p[2]>>) THEN <<[t |-> "?"]>>
                   ELSE IF named # {} THEN SchemaAt(types, r.f[CHOOSE j \in named : TRUE][2], Tail(path))
                   ELSE IF Cardinality(pats) > 1 THEN <<[t |-> "?"]>>
                   ELSE IF pats = {} THEN <<>>
                   ELSE SchemaAt(types, r.f[CHOOSE j \in pats : TRUE][2], Tail(path))
      [] b.t = "enum" ->
           LET js == {j \in 1..Len(b.f) : p[1] = "tag" /\ <<64>> \o b.f[j][1][2] = p[2]} IN
           IF p[1] = "odd" \/ (p[1] = "key" /\ p[2] # <<>> /\ p[2][1] = 64) THEN <<[t |-> "?"]>>
           ELSE IF js = {} THEN <<>> ELSE SchemaAt(types, b.f[CHOOSE j \in js : TRUE][2], Tail(path))
      [] b.t = "map" -> IF p[1] \in {"tag", "item"} THEN <<[t |-> "?"]>> ELSE SchemaAt(types, b.s[Len(b.s)], Tail(path))
      [] b.t = "seq" -> IF p[1] = "key" /\ AllDigits(p[2]) THEN <<[t |-> "?"]>> ELSE IF p[1] # "item" THEN <<>> ELSE SchemaAt(types, b.s, Tail(path))
      [] b.t = "tuple" -> IF p[1] = "key" /\ AllDigits(p[2]) THEN <<[t |-> "?"]>>
                          ELSE IF p[1] # "item" \/ p[3] > Len(b.s) THEN <<>> ELSE SchemaAt(types, b.s[p[3]], Tail(path))
      [] OTHER -> <<>>

\* what stands for a field: optional, default (<<>> or <<value>>), type
RECURSIVE Bare(_, _, _)
Bare(s, opt, def) ==
  CASE s.t = "optional" -> Bare(s.s, TRUE, def)
    [] s.t = "default" -> Bare(s.s, opt, IF def = <<>> THEN <<s.x>> ELSE def)
    [] s.t = "deprecated" -> Bare(s.s, opt, def)
    [] OTHER -> [opt |-> opt, def |-> def, s |-> s]

NoBound(s) == IF s.t = "string" THEN [s EXCEPT !.lo = <<>>, !.hi = <<>>, !.pat = <<>>]
              ELSE IF s.t \in {"int", "float"} THEN [s EXCEPT !.lo = <<>>, !.hi = <<>>] ELSE s

\* a value that a field of the type can start from
RECURSIVE Starts(_, _, _, _)
Starts(types, s, v, n) ==
  CASE n > 9 -> TRUE
    [] s.t \in {"string", "int", "float", "bool", "literal", "unit"} -> v.g = <<>> /\ Valid(Chk(types, v, NoBound(s), <<>>, {}))
    [] s.t \in {"any", "?"} -> TRUE
    [] s.t = "seq" -> v.g = <<>> /\ v.k = "seq" /\ v.i = <<>>
    [] s.t \in {"map", "object"} -> v.g = <<>> /\ v.k = "obj" /\ v.e = <<>>
    [] s.t = "tuple" -> v.g = <<>> /\ v.k = "seq" /\ Len(v.i) = Len(s.s) /\ \A j \in 1..Len(v.i) : Starts(types, s.s[j], v.i[j], n + 1)
    [] s.t = "union" -> s.s = <<>> \/ \E j \in 1..Len(s.s) : Starts(types, s.s[j], v, n + 1)
    [] s.t = "enum" ->
         s.f = <<>> \/ /\ v.g # <<>>
                       /\ \E j \in 1..Len(s.f) : /\ s.f[j][1] = <<"name", TagOf(v)>>
                                                 /\ v.c # <<>> \/ Starts(types, s.f[j][2], [v EXCEPT !.g = <<>>], n + 1)
    [] s.t = "oneof" -> IF s.a = <<>> THEN Starts(types, s.s, v, n + 1) ELSE \E j \in 1..Len(s.a) : Meaning(v) = Meaning(s.a[j])
    [] s.t = "default" -> Meaning(v) = Meaning(s.x)
    [] s.t \in {"optional", "deprecated", "flatten"} -> Starts(types, s.s, v, n + 1)
    [] s.t = "ref" -> Named(types, s.x) = <<>> \/ Starts(types, Named(types, s.x)[1], v, n + 1)
    [] OTHER -> TRUE

RECURSIVE At2(_, _)               \* the object that indexes of entries and items lead to
At2(v, ix) == IF ix = <<>> THEN v ELSE At2(IF ix[1] > 0 THEN v.e[ix[1]][2] ELSE v.i[0 - ix[1]], Tail(ix))
RECURSIVE Put(_, _, _)            \* the document with these entries in that object
Put(v, ix, es) == IF ix = <<>> THEN [v EXCEPT !.e = es]
                  ELSE IF ix[1] > 0 THEN [v EXCEPT !.e[ix[1]][2] = Put(@, Tail(ix), es)] ELSE [v EXCEPT !.i[0 - ix[1]] = Put(@, Tail(ix), es)]
Cut(v, ix, n) == Put(v, ix, SubSeq(At2(v, ix).e, 1, n))
RECURSIVE Leads(_, _)
Leads(v, ix) == IF ix = <<>> THEN v.k = "obj"
                ELSE IF ix[1] > 0 THEN v.k = "obj" /\ ix[1] <= Len(v.e) /\ Leads(v.e[ix[1]][2], Tail(ix))
                ELSE v.k = "seq" /\ 0 - ix[1] <= Len(v.i) /\ Leads(v.i[0 - ix[1]], Tail(ix))

\* after: the text with the fields fs (<<name, schema>>) filled in at the end of the object at ix
Filled(types, doc, ix, fs, after) ==
  LET E == Events(after) IN
  IF HasErr(E) THEN FALSE
  ELSE LET d == TreeOf(E)
           n == Len(At2(doc, ix).e)
       IN /\ Leads(d, ix)
          /\ LET es == At2(d, ix).e
                 new == SubSeq(es, n + 1, Len(es))
             IN /\ Len(es) = n + Len(fs)
                /\ Meaning(Cut(d, ix, n)) = Meaning(doc)
                /\ \A j \in 1..Len(fs) :
                     \E q \in 1..Len(new) :
                       /\ IsText(new[q][1]) /\ new[q][1].t = fs[j][1] /\ new[q][3] = <<>>
                       /\ LET b == Bare(fs[j][2], FALSE, <<>>) IN
                          IF b.def # <<>> THEN Meaning(new[q][2]) = Meaning(b.def[1])
                          ELSE Starts(types, b.s, new[q][2], 0)

\* the comments of a text, in order
Comments(W, cs) == LET c == SelectSeq(W, LAMBDA w : w[1] = "LINE_COMMENT") IN [j \in 1..Len(c) |-> SubSeq(cs, c[j][2] + 1, c[j][3])]

---------------------------------------------------------------------------
\* Renaming a field: <<path of indexes (negative: into a sequence), ...>> of the key with a span
RECURSIVE KeyAt(_, _)
KeyAt(v, sp) ==                   \* <<object, index>> or <<>>
  LET ks == {j \in 1..Len(v.e) : v.e[j][1].sp = sp /\ IsText(v.e[j][1])}
      below == [j \in 1..Len(v.e) |-> KeyAt(v.e[j][2], sp)] \o [j \in 1..Len(v.i) |-> KeyAt(v.i[j], sp)]
      hit == {j \in 1..Len(below) : below[j] # <<>>}
  IN IF ks # {} THEN <<v, CHOOSE j \in ks : TRUE>>
     ELSE IF hit = {} THEN <<>> ELSE below[CHOOSE j \in hit : \A q \in hit : j <= q]
RECURSIVE Renamed(_, _, _)
Renamed(v, sp, to) ==
  [v EXCEPT !.e = [j \in 1..Len(v.e) |->
                     <<IF v.e[j][1].sp = sp /\ IsText(v.e[j][1]) THEN [v.e[j][1] EXCEPT !.t = to] ELSE v.e[j][1],
                       Renamed(v.e[j][2], sp, to), v.e[j][3]>>],
            !.i = [j \in 1..Len(v.i) |-> Renamed(v.i[j], sp, to)]]
\* a text that can stand as a segment of a path or the name of an attribute
PlainKey(t) == t # <<>> /\ \A j \in 1..Len(t) : Upper(t[j]) \/ Lower(t[j]) \/ Digit(t[j]) \/ t[j] \in {45, 95}
=============================================================================
