------------------------------ MODULE TracePlace ------------------------------
(***************************************************************************)
(* What the language server tells at a place is what the schema says there. *)
(***************************************************************************)
EXTENDS StyxPlace, Report

VARIABLES n, done
Init == n \in 1..Len(Recs) /\ done = FALSE

Name == <<115, 46, 115, 116, 121, 120>>       \* s.styx
Agree(r, what, exp, got, ok) == IF ok THEN TRUE ELSE Mismatch(r, what, exp, got)

Completes(r, cs, L, I, W, doc, types) ==
  LET o == Back(cs, L, r.pos[1], r.pos[2])
      x == ObjectAt(doc, o, <<>>, <<>>)
      at == IF Root(types) = <<>> THEN <<>> ELSE SchemaAt(types, Root(types)[1], x.path)
      in == IF at = <<>> THEN [ok |-> TRUE, f |-> <<>>]
            ELSE IF at[1].t = "?" THEN [ok |-> FALSE]
            ELSE IF at[1].t # "object" THEN [ok |-> TRUE, f |-> <<>>]
            ELSE Inline(types, at[1].f, {}, <<>>)
      keys == {x.v.e[j][1].t : j \in {i \in 1..Len(x.v.e) : IsText(x.v.e[i][1])}}
      items == r.place[1]
      typed == Typed(cs, x.v, o)
      fresh == ~InText(I, o) /\ ~InScalar(W, o) /\ Fresh(cs, o)
      \* dotted keys have to stay together
      dots == \E j \in 1..Len(x.v.e) : x.v.e[j][2].k = "obj" /\ ~Braced(cs, x.v.e[j][2])
  IN IF ~in.ok \/ ~Braced(cs, x.v) THEN TRUE
     ELSE LET fs == SelectSeq([j \in 1..Len(in.f) |-> <<in.f[j][1], in.f[j][2]>>], LAMBDA f : f[1][1] = "name" /\ f[1][2] \notin keys)
              opt(f) == LET b == Bare(f[2], FALSE, <<>>) IN b.opt \/ b.def # <<>>
              want == [j \in 1..Len(fs) |-> <<fs[j][1][2], (IF opt(fs[j]) THEN <<49>> ELSE <<48>>) \o fs[j][1][2]>>]
              got == [j \in 1..Len(items) |-> SubSeq(items[j], 1, 2)]
          IN /\ Agree(r, "fields to complete", want, got, SameBag(want, got))
             /\ \A j \in 1..Len(items) :
                  LET e == items[j][3] \o <<items[j][4]>>
                      after == Edited(cs, L, <<e>>)
                  IN /\ Agree(r, "completion at", r.pos, e, EditsStand(cs, L, <<e>>) /\ e[1] = r.pos[1] /\ SubSeq(e, 3, 4) = Pos(cs, L, o))
                     /\ (typed = <<>> \/
                           LET sp == x.v.e[typed[1]][1].sp IN
                           /\ Agree(r, "completed word", Range(cs, L, sp[1], sp[2]), e, SubSeq(e, 1, 4) = Range(cs, L, sp[1], sp[2]))
                           /\ LET E == Events(after) IN
                              Agree(r, "completed", items[j][1], after, ~HasErr(E) /\ Meaning(TreeOf(E)) = Meaning(Renamed(doc, sp, items[j][1]))))
                     /\ (~fresh \/ dots \/ Agree(r, "completed", items[j][1], after, Added(doc, x.ix, items[j][1], after)))

Tells(r, cs, L, doc, ss, S) ==
  LET o == Back(cs, L, r.pos[1], r.pos[2])
      path == PathAt(doc, o)
      defs == ByName(S.e, W_schema)
      root == SelectSeq(defs[1][2].e, LAMBDA e : e[1].k = "none" /\ e[1].g = <<>>)
      h == r.place[2]
      d == r.place[3]
      all(lax) == IF path = <<>> \/ root = <<>> THEN {} ELSE Leads2(defs[1][2].e, root[1][2], path, {}, lax)
      span(x) == IF x[3] = <<>> THEN <<>> ELSE LET M == LineStarts(ss) IN <<"schema", Range(ss, M, x[3][1], x[3][2])>>
  IN IF \E j \in 1..Len(doc.e) : IsDecl(doc.e[j]) /\ doc.e[j][2].sp # <<>> /\ doc.e[j][1].sp[1] <= o /\ o <= doc.e[j][2].sp[2]
     THEN Agree(r, "definition of the schema", "schema", d, d # <<>> => d[1] = "schema")
     ELSE IF ~Clear(path) THEN TRUE
     ELSE /\ Agree(r, "hover", [p |-> path, t |-> {<<Concise(x[1]), x[2], x[3]>> : x \in all(FALSE)}], h,
                   \E lax \in BOOLEAN : IF h = <<>> THEN all(lax) = {} ELSE \E x \in all(lax) : HoverTells(h[1], path, x, ss))
          /\ Agree(r, "definition", {span(x) : x \in all(FALSE)}, d,
                   \E lax \in BOOLEAN : IF all(lax) = {} THEN d = <<>> ELSE \E x \in all(lax) : span(x) = d)

Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ LET r == Recs[n] IN
           IF r.panics # <<>> THEN NoPanic(r)
           ELSE LET cs == r.cs
                    L == LineStarts(cs)
                    E == Events(cs)
                    C == CST!Cst(cs)
                    I == Inside(C.o, 1, <<>>)
                    bad == HasErr(E)
                    doc == IF bad THEN <<>> ELSE TreeOf(E)
                    S == IF r.ss = <<-1>> THEN <<>> ELSE Events(r.ss)
                    file == IF r.ss = <<-1>> THEN <<>> ELSE IF HasErr(S) THEN <<>> ELSE << Schema(TreeOf(S)) >>
                    decl == IF bad THEN <<>> ELSE Decl(doc)
                    known == file # <<>> /\ decl # <<>> /\ (IF IsText(decl[1]) THEN decl[1].t = Name ELSE FALSE)
                IN IF known THEN Completes(r, cs, L, I, C.o, doc, file[1]) /\ Tells(r, cs, L, doc, r.ss, TreeOf(S))
                   ELSE Same(r, "told", << <<>>, <<>>, <<>> >>, r.place)
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
