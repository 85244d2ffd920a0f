------------------------------- MODULE StyxPlace -------------------------------
(***************************************************************************)
(* What an editor is told at a place of a text: which fields can come       *)
(* there, what the field is, and where its schema says so.                  *)
(***************************************************************************)
EXTENDS StyxEdits

\* the keys and items at an offset: <<"key", name>>, <<"item", index>>, <<"odd">>; <<>> for none
Within(sp, o) == sp # <<>> /\ sp[1] <= o /\ o < sp[2]
RECURSIVE PathAt(_, _)
PathAt(v, o) ==
  LET ks == {j \in 1..Len(v.e) : Within(v.e[j][1].sp, o) \/ Within(v.e[j][2].sp, o)}
      is == {j \in 1..Len(v.i) : Within(v.i[j].sp, o)}
  IN IF ks # {}
     THEN LET j == CHOOSE j \in ks : \A q \in ks : j <= q
              e == v.e[j]
              here == << IF IsText(e[1]) THEN <<"key", e[1].t>> ELSE <<"odd">> >>
          IN IF Within(e[1].sp, o) THEN here ELSE here \o PathAt(e[2], o)
     ELSE IF is # {} THEN LET j == CHOOSE j \in is : \A q \in is : j <= q IN << <<"item", j>> >> \o PathAt(v.i[j], o)
     ELSE <<>>
SureP(path) == \A j \in 1..Len(path) : path[j][1] # "odd"

---------------------------------------------------------------------------
\* The schema as it is written: its definitions are entries
TagIs(v, w) == v.c = <<>> /\ v.g # <<>> /\ TagOf(v) = w
Wraps == {<<111, 112, 116, 105, 111, 110, 97, 108>>, <<100, 101, 102, 97, 117, 108, 116>>,
          <<100, 101, 112, 114, 101, 99, 97, 116, 101, 100>>, <<102, 108, 97, 116, 116, 101, 110>>}
ByName(es, name) == SelectSeq(es, LAMBDA e : IsText(e[1]) /\ e[1].t = name)
RECURSIVE Under(_, _, _)          \* behind references and modifiers
Under(defs, v, seen) ==
  IF v.c # <<>> \/ v.g = <<>> THEN v
  ELSE IF TagOf(v) \in Wraps /\ v.k = "seq" /\ v.i # <<>> THEN Under(defs, v.i[Len(v.i)], seen)
  ELSE IF v.k = "none" /\ TagOf(v) \notin seen /\ ByName(defs, TagOf(v)) # <<>>
       THEN Under(defs, ByName(defs, TagOf(v))[1][2], seen \cup {TagOf(v)})
  ELSE v

\* the entries that stand for a field: by name, else the catch-alls
RECURSIVE Entries(_, _, _, _)
Entries(defs, v, name, seen) ==   \* v: behind references; seen: spans of the types inlined so far
  LET own == SelectSeq(v.e, LAMBDA e : IsText(e[1]) /\ e[1].t = name /\ ~TagIs(e[2], W_flatten))
      odd == SelectSeq(v.e, LAMBDA e : ~IsText(e[1]))
      flat == SelectSeq(v.e, LAMBDA e : TagIs(e[2], W_flatten))
      inner == Flat([j \in 1..Len(flat) |->
                  LET b == Under(defs, flat[j][2], {}) IN
                  IF b.sp \in seen THEN <<>> ELSE Entries(defs, b, name, seen \cup {b.sp})])
      named == SelectSeq(inner, LAMBDA e : IsText(e[1]))
  IN IF v.k # "obj" THEN <<>> ELSE IF own # <<>> THEN <<own[1]>> ELSE IF named # <<>> THEN named ELSE odd \o inner

\* what a path can lead to: a set of <<type, documentation, span of the key>>
RECURSIVE Leads2(_, _, _, _, _)
\* lax: a number in a place of keys is one
Leads2(defs, t, path, seen, lax) ==
  LET v == Under(defs, t, {})
      p == path[1]
      rest == Tail(path)
      go(x) == IF rest = <<>> THEN {} ELSE Leads2(defs, x, rest, {}, lax)
      same(x) == Leads2(defs, x, path, seen \cup {v.sp}, lax)
  IN IF v.sp \in seen \/ path = <<>> THEN {}
     ELSE IF TagIs(v, W_map) /\ v.k = "seq" /\ v.i # <<>> /\ (lax \/ p[1] = "key")
     THEN IF rest = <<>> THEN {<<v.i[Len(v.i)], <<>>, <<>>>>} ELSE go(v.i[Len(v.i)])
     ELSE IF TagIs(v, W_seq) THEN IF p[1] = "item" /\ v.k = "seq" /\ v.i # <<>> THEN go(v.i[1]) ELSE {}
     ELSE IF TagIs(v, W_tuple) THEN IF p[1] = "item" /\ v.k = "seq" /\ p[2] <= Len(v.i) THEN go(v.i[p[2]]) ELSE {}
     ELSE IF TagIs(v, W_union) THEN UNION {same(v.i[j]) : j \in 1..Len(v.i)}
     ELSE IF TagIs(v, W_enum) THEN UNION {same(v.e[j][2]) : j \in 1..Len(v.e)}
     ELSE IF (v.g = <<>> \/ TagIs(v, W_object)) /\ v.k = "obj" /\ (lax \/ p[1] = "key")
     THEN LET es == Entries(defs, v, IF p[1] = "key" THEN p[2] ELSE DecText(p[2] - 1), {v.sp}) IN
          UNION {IF rest = <<>> THEN {<<es[j][2], IF IsText(es[j][1]) THEN es[j][3] ELSE <<>>, es[j][1].sp>>} ELSE go(es[j][2]) : j \in 1..Len(es)}
     ELSE {}

\* numbers of items and keys that look like them cannot be told apart
Clear(path) == SureP(path) /\ \A j \in 1..Len(path) : path[j][1] = "key" => ~AllDigits(path[j][2])

---------------------------------------------------------------------------
\* a type as it is told, without what is inside of its braces
RECURSIVE Concise(_)
RECURSIVE Row(_, _)
Row(s, j) == IF j > Len(s) THEN <<>> ELSE (IF j > 1 THEN <<32>> ELSE <<>>) \o Concise(s[j]) \o Row(s, j + 1)
Concise(v) ==
  LET tag == IF v.g = <<>> THEN <<>> ELSE <<64>> \o TagOf(v)
      pay == CASE v.k = "none" -> <<>>
               [] v.k = "scalar" -> IF tag = <<>> THEN v.t ELSE <<40>> \o v.t \o <<41>>
               [] v.k = "obj" -> IF tag = <<>> THEN <<123, 46, 46, 46, 125, 32, 40>> \o DecText(Len(v.e)) \o <<32, 102, 105, 101, 108, 100, 115, 41>>
                                 ELSE <<123, 46, 46, 46, 125>>
               [] v.k = "seq" -> <<40>> \o Row(v.i, 1) \o <<41>>
  IN IF tag \o pay = <<>> THEN <<64>> ELSE tag \o pay
Crumb == <<32, 8250, 32>>
RECURSIVE Crumbs(_)
Crumbs(path) == IF path = <<>> THEN <<>> ELSE Crumb \o (IF path[1][1] = "key" THEN path[1][2] ELSE DecText(path[1][2] - 1)) \o Crumbs(Tail(path))
\* a hover: documentation, [@](link), the path and the type
Ends(t, w) == Len(t) >= Len(w) /\ SubSeq(t, Len(t) - Len(w) + 1, Len(t)) = w
Starts2(t, w) == Len(t) >= Len(w) /\ SubSeq(t, 1, Len(w)) = w
DocText(d) == IF d = <<>> THEN <<>> ELSE Tail(d) \o <<10, 10>>
HoverTells(h, path, x, ss) ==
  LET L == LineStarts(ss)
      p == IF x[3] = <<>> THEN <<>> ELSE Pos(ss, L, x[3][1])
      tail == (IF p = <<>> THEN <<>> ELSE <<35, 76>> \o DecText(p[1] + 1) \o <<58>> \o DecText(p[2] + 1)) \o
              <<41>> \o Crumbs(path) \o <<58, 32, 96>> \o Concise(x[1]) \o <<96>>
  IN Starts2(h, DocText(x[2]) \o <<91, 64, 93, 40>>) /\ Ends(h, tail)

---------------------------------------------------------------------------
\* Completion.  Where a new entry can start, or the end of a key on its own
BlankOr(cs, j, more) == j < 1 \/ j > Len(cs) \/ cs[j] \in {9, 10, 13, 32} \cup more
RECURSIVE Before(_, _)            \* the last character that is no blank, 0 for none
Before(cs, j) == IF j < 1 THEN 0 ELSE IF cs[j] \in {9, 32} THEN Before(cs, j - 1) ELSE j
RECURSIVE After(_, _)             \* nothing else follows
After(cs, j) == j > Len(cs) \/ cs[j] \in {10, 13, 125} \/ (cs[j] \in {9, 32} /\ After(cs, j + 1))
Fresh(cs, o) ==
  LET b == Before(cs, o) IN
  /\ After(cs, o + 1)
  /\ BlankOr(cs, o, {123, 44})
  /\ b = 0 \/ cs[b] \in {10, 13, 123, 44}
\* the entry of an object whose key is being typed: <<index>> or <<>>
Typed(cs, v, o) ==
  LET js == {j \in 1..Len(v.e) :
               /\ IsText(v.e[j][1]) /\ v.e[j][1].sp # <<>> /\ v.e[j][1].sp[2] = o
               /\ SubSeq(cs, v.e[j][1].sp[1] + 1, o) = v.e[j][1].t
               /\ v.e[j][2].k = "none" /\ v.e[j][2].g = <<>>
               /\ BlankOr(cs, v.e[j][1].sp[1], {123, 44}) /\ BlankOr(cs, o + 1, {125, 44})}
  IN IF js = {} THEN <<>> ELSE <<CHOOSE j \in js : TRUE>>
\* an entry with the name stands new in the object at ix
Without(v, ix, q) == LET es == At2(v, ix).e IN Put(v, ix, SubSeq(es, 1, q - 1) \o SubSeq(es, q + 1, Len(es)))
Added(doc, ix, name, after) ==
  LET E == Events(after) IN
  IF HasErr(E) THEN FALSE
  ELSE LET d == TreeOf(E) IN
       Leads(d, ix) /\ LET es == At2(d, ix).e IN
         \E q \in 1..Len(es) : /\ IsText(es[q][1]) /\ es[q][1].t = name /\ es[q][2].k = "none" /\ es[q][2].g = <<>>
                               /\ Meaning(Without(d, ix, q)) = Meaning(doc)
=============================================================================
