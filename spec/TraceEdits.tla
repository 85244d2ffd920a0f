------------------------------ MODULE TraceEdits ------------------------------
(***************************************************************************)
(* What the language server offers to change does what it says.             *)
(***************************************************************************)
EXTENDS StyxEdits, Report

VARIABLES n, done
Init == n \in 1..Len(Recs) /\ done = FALSE

Name == <<115, 46, 115, 116, 121, 120>>       \* s.styx
Agree(r, what, exp, got, ok) == IF ok THEN TRUE ELSE Mismatch(r, what, exp, got)
Begins(t, w) == Len(t) >= Len(w) /\ SubSeq(t, 1, Len(w)) = w
FillAll == <<70, 105, 108, 108, 32, 97, 108, 108, 32>>                        \* "Fill all "
Fill == <<70, 105, 108, 108, 32>>                                             \* "Fill "
Rename == <<82, 101, 110, 97, 109, 101, 32, 39>>                              \* "Rename '"
Quoted(a, b) == Rename \o a \o <<39, 32, 116, 111, 32, 39>> \o b \o <<39>>     \* "Rename 'a' to 'b'"
Required == <<32, 114, 101, 113, 117, 105, 114, 101, 100>>                     \* " required"
Field(k) == <<32, 102, 105, 101, 108, 100>> \o (IF k = 1 THEN <<>> ELSE <<115>>)
RECURSIVE Dotted(_)
Dotted(path) == IF Len(path) = 1 THEN path[1][2] ELSE path[1][2] \o <<46>> \o Dotted(Tail(path))
Where(path) == IF path = <<>> THEN <<>> ELSE <<32, 105, 110, 32, 39>> \o Dotted(path) \o <<39>>   \* " in 'path'"
TitleReq(k, path) == Fill \o DecText(k) \o Required \o Field(k) \o Where(path)
TitleAll(k, path) == FillAll \o DecText(k) \o Field(k) \o Where(path)

Offers(acts, w) == SelectSeq(acts, LAMBDA a : Begins(a[2], w))

\* an action and the text after it
ActsWell(r, cs, L, a) == Agree(r, "edits of an action", <<>>, a, a[4] /\ EditsStand(cs, L, a[3]))

Fills(r, cs, L, C, doc, types) ==
  LET o == Back(cs, L, r.pos[1], r.pos[2])
      x == ObjectAt(doc, o, <<>>, <<>>)
      at == IF Root(types) = <<>> THEN <<>> ELSE SchemaAt(types, Root(types)[1], x.path)
      in == IF at = <<>> THEN [ok |-> TRUE, f |-> <<>>]
            ELSE IF at[1].t = "?" THEN [ok |-> FALSE]
            ELSE IF at[1].t # "object" THEN [ok |-> TRUE, f |-> <<>>]
            ELSE Inline(types, at[1].f, {}, <<>>)
      keys == {x.v.e[j][1].t : j \in {i \in 1..Len(x.v.e) : IsText(x.v.e[i][1])}}
      offered == Offers(r.edits[2], Fill)
  IN IF ~in.ok THEN TRUE
     ELSE LET fs == SelectSeq([j \in 1..Len(in.f) |-> <<in.f[j][1], in.f[j][2]>>], LAMBDA f : f[1][1] = "name" /\ f[1][2] \notin keys)
              all == [j \in 1..Len(fs) |-> <<fs[j][1][2], fs[j][2]>>]
              req == SelectSeq(all, LAMBDA f : ~Bare(f[2], FALSE, <<>>).opt)
              want == IF ~Braced(cs, x.v) THEN <<>>
                      ELSE (IF req = <<>> THEN <<>> ELSE << <<TitleReq(Len(req), x.path), req>> >>) \o
                           (IF Len(req) = Len(all) THEN <<>> ELSE << <<TitleAll(Len(all), x.path), all>> >>)
          IN /\ Agree(r, "fields to fill", [j \in 1..Len(want) |-> want[j][1]], [j \in 1..Len(offered) |-> offered[j][2]],
                      SameBag([j \in 1..Len(want) |-> want[j][1]], [j \in 1..Len(offered) |-> offered[j][2]]))
             /\ \A j \in 1..Len(offered) : \A q \in 1..Len(want) :
                  offered[j][2] # want[q][1] \/ ~EditsStand(cs, L, offered[j][3]) \/
                    LET after == Edited(cs, L, offered[j][3]) IN
                    /\ Agree(r, "filled", want[q][1], after, Filled(types, doc, x.ix, want[q][2], after))
                    /\ Same(r, "comments", Comments(C.o, cs), Comments(CST!Cst(after).o, after))

Renames(r, cs, L, doc, types) ==
  LET v == Verdict(types, Undeclared(doc))
      unknown == SelectSeq(v.e, LAMBDA e : e[1] = "UnknownField" /\ e[4][2] # <<>>)
      offered == Offers(r.edits[2], Rename)
      \* what each complaint lets one do: <<title, span, name>>
      deed(e) == LET to == Tail(e[4][2])
                     k == KeyAt(doc, e[3])
                 IN IF k = <<>> THEN <<>>
                    ELSE IF \E j \in 1..Len(k[1].e) : IsText(k[1].e[j][1]) /\ k[1].e[j][1].t = to THEN <<>>
                    ELSE << <<Quoted(e[4][1], to), e[3], to>> >>
      deeds == Flat([j \in 1..Len(unknown) |-> deed(unknown[j])])
      \* names that need quotes cannot be segments of paths and attributes
      sure == SelectSeq(deeds, LAMBDA d : PlainKey(d[3]))
      titles(s) == [j \in 1..Len(s) |-> s[j][1]]
  IN /\ \A j \in 1..Len(offered) :
          /\ Agree(r, "renaming", titles(deeds), offered[j][2], \E q \in 1..Len(deeds) : deeds[q][1] = offered[j][2])
          /\ LET es == offered[j][3]
                 qs == {q \in 1..Len(deeds) : deeds[q][1] = offered[j][2] /\ Len(es) = 1 /\ Range(cs, L, deeds[q][2][1], deeds[q][2][2]) = SubSeq(es[1], 1, 4)}
             IN Agree(r, "renaming at", deeds, es, qs # {}) /\
                (qs = {} \/ LET d == deeds[CHOOSE q \in qs : TRUE]
                                E == Events(Edited(cs, L, es))
                            IN Agree(r, "renamed", d, Edited(cs, L, es),
                                     ~HasErr(E) /\ Meaning(TreeOf(E)) = Meaning(Renamed(doc, d[2], d[3]))))
     /\ \A j \in 1..Len(sure) : Agree(r, "renaming to offer", sure[j], [q \in 1..Len(offered) |-> offered[q][2]],
                                      \E q \in 1..Len(offered) : offered[q][2] = sure[j][1])

Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ LET r == Recs[n] IN
           IF r.panics # <<>> THEN NoPanic(r)
           ELSE LET cs == r.cs
                    L == LineStarts(cs)
                    E == Events(cs)
                    C == CST!Cst(cs)
                    I == Inside(C.o, 1, <<>>)
                    bad == HasErr(E)
                    doc == IF bad THEN <<>> ELSE TreeOf(E)
                    S == IF r.ss = <<-1>> THEN <<>> ELSE Events(r.ss)
                    file == IF r.ss = <<-1>> THEN <<>> ELSE IF HasErr(S) THEN <<>> ELSE << Schema(TreeOf(S)) >>
                    decl == IF bad THEN <<>> ELSE Decl(doc)
                    known == file # <<>> /\ decl # <<>> /\ (IF IsText(decl[1]) THEN decl[1].t = Name ELSE FALSE)
                    enter == r.edits[1]
                    line == L[r.pos[1] + 1]
                    o == Back(cs, L, r.pos[1], r.pos[2])
                    want == EnterEdits(cs, L, C.o, I, r.pos, r.tab)
                    form == r.edits[3]
                IN /\ (IF r.pos[1] > 0 /\ AtIndent(cs, line, o) THEN Same(r, "enter", want, enter)
                       ELSE Agree(r, "enter", want, enter, \A j \in 1..Len(enter) : want # <<>> /\ SubSeq(enter[j], 1, 4) = SubSeq(want[1], 1, 4)
                                                                                    /\ \A q \in 1..Len(enter[j][5]) : enter[j][5][q] = (IF r.tab = 0 THEN 9 ELSE 32)))
                   /\ (IF bad \/ enter = <<>> \/ ~EditsStand(cs, L, enter) THEN TRUE
                       ELSE LET F == Events(Edited(cs, L, enter))
                            IN Agree(r, "entered", cs, Edited(cs, L, enter), ~HasErr(F) /\ Meaning(TreeOf(F)) = Meaning(doc)))
                   /\ Agree(r, "edits of formatting", <<>>, form, EditsStand(cs, L, form) /\ (bad => Edited(cs, L, form) = cs))
                   /\ (IF bad \/ form = <<>> \/ ~EditsStand(cs, L, form) THEN TRUE
                       ELSE LET F == Events(Edited(cs, L, form))
                            IN Agree(r, "formatted", cs, Edited(cs, L, form), ~HasErr(F) /\ Meaning(TreeOf(F)) = Meaning(doc)))
                   /\ \A j \in 1..Len(r.edits[2]) : ActsWell(r, cs, L, r.edits[2][j])
                   /\ (IF known THEN Fills(r, cs, L, C, doc, file[1]) /\ Renames(r, cs, L, doc, file[1])
                       ELSE Same(r, "offers", <<>>, Offers(r.edits[2], Fill) \o Offers(r.edits[2], Rename)))
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
