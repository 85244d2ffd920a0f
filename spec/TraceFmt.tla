------------------------------- MODULE TraceFmt -------------------------------
(***************************************************************************)
(* The document formatter.  Its output is related to its input by the      *)
(* specification of the language: same significant lexemes (everything but *)
(* blanks, line ends and commas) in the same order, same meaning, and a    *)
(* text with syntax errors is left alone.  Formatting is idempotent.       *)
(***************************************************************************)
EXTENDS StyxTree, StyxCst, Report

VARIABLES n, done
Init == n \in 1..Len(Recs) /\ done = FALSE

Sig(cs) == LET S == SelectSeq(Lex(cs), LAMBDA x : x.k \notin {"Newline", "Comma", "Eof"})
           IN [i \in 1..Len(S) |-> <<S[i].k, S[i].n, S[i].t>>]

Mean(cs) == LET E == Events(cs) IN IF HasErr(E) THEN <<>> ELSE Meaning(TreeOf(E))

\* Complaints about entries do not keep the text from being laid out again;
\* any other syntax error does.
Lenient == {"DuplicateKey", "ReopenedPath", "NestIntoTerminal", "TooManyAtoms"}
ErrKinds(cs) == LET E == Events(cs) IN {E[i][2] : i \in {j \in 1..Len(E) : E[j][1] = "Error"}}
Untouched(cs) == Cst(cs).r # <<>> \/ ErrKinds(cs) \ Lenient # {}

RECURSIVE SubSeqOf(_, _, _, _)
SubSeqOf(a, i, b, j) == IF i > Len(a) THEN TRUE
                        ELSE IF j > Len(b) THEN FALSE
                        ELSE IF a[i] = b[j] THEN SubSeqOf(a, i + 1, b, j + 1)
                        ELSE SubSeqOf(a, i, b, j + 1)

\* What the layout of a formatted text may look like, as far as it is fixed:
\* one line end at the end, no blanks before a line end, at most one blank
\* line in a row, lines start with whole indents.
Indent(r) == IF "indent" \in DOMAIN r /\ r.indent = "tab" THEN <<9>> ELSE <<32, 32, 32, 32>>
Whole(t, ind) == /\ Len(t) % Len(ind) = 0
                 /\ \A i \in 1..Len(t) : t[i] = ind[((i - 1) % Len(ind)) + 1]
LayoutOk(cs, ind) ==
  LET T == Tokens(cs)
      Kd(i) == IF i >= 1 /\ i <= Len(T) THEN T[i].k ELSE "none"
  IN cs # <<>> =>
     /\ cs[Len(cs)] = 10
     /\ ~(Kd(Len(T)) = "Newline" /\ Kd(Len(T) - 1) = "Newline")
     /\ \A i \in 1..Len(T) :
          /\ T[i].k = "Newline" => /\ Kd(i - 1) # "Whitespace"
                                   /\ ~(Kd(i - 1) = "Newline" /\ Kd(i - 2) = "Newline")
          /\ T[i].k = "Whitespace" =>
               IF Kd(i - 1) \in {"Newline", "none"} THEN Whole(Text(cs, T[i].s, T[i].e), ind)
               ELSE Text(cs, T[i].s, T[i].e) = <<32>>

\* Two texts that differ in blanks between lexemes only
Solid(cs) == LET T == SelectSeq(Tokens(cs), LAMBDA x : x.k # "Whitespace")
             IN [i \in 1..Len(T) |-> <<T[i].k, Text(cs, T[i].s, T[i].e)>>]

RECURSIVE Diff(_, _, _)
Diff(a, b, i) == IF i > Len(a) \/ i > Len(b) \/ a[i] # b[i] THEN i ELSE Diff(a, b, i + 1)
Around(a, i) == SubSeq(a, IF i > 2 THEN i - 2 ELSE 1, Min2(i + 2, Len(a)))

Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ LET r == Recs[n] IN
           IF r.panics # <<>> THEN NoPanic(r)
           ELSE IF Untouched(r.cs) THEN Same(r, "unchanged", r.cs, r.fmt)
           ELSE /\ LET a == Sig(r.cs)  b == Sig(r.fmt)
                   IN IF a = b \/ ("TooManyAtoms" \in ErrKinds(r.cs) /\ \E x \in 1..Len(a) : a[x][1] = "Error") THEN TRUE
                      ELSE IF "TooManyAtoms" \in ErrKinds(r.cs) /\ SubSeqOf(b, 1, a, 1) THEN Mismatch(r, "dropped", <<>>, r.fmt)
                      ELSE Mismatch(r, "lexemes", Around(a, Diff(a, b, 1)), r.fmt)
                /\ IF "TooManyAtoms" \in ErrKinds(r.cs) \/ Mean(r.cs) = Mean(r.fmt) THEN TRUE ELSE Mismatch(r, "meaning", <<>>, r.fmt)
                /\ Same(r, "again", r.fmt, r.fmt2)
                /\ IF LayoutOk(r.fmt, Indent(r)) THEN TRUE ELSE Mismatch(r, "layout", <<>>, r.fmt)
                /\ IF "alt" \in DOMAIN r
                   THEN /\ Assert(Solid(r.cs) = Solid(r.cs2), <<"not respaced", r.cs, r.cs2>>)
                        /\ Same(r, "respaced", r.fmt, r.alt)
                   ELSE TRUE
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
