------------------------------ MODULE TraceEditor ------------------------------
(***************************************************************************)
(* What the language server told about each text is what StyxEditor says.   *)
(* ss: the schema file s.styx, <<-1>> when there is none.                   *)
(***************************************************************************)
EXTENDS StyxEditor, Report

VARIABLES n, done
Init == n \in 1..Len(Recs) /\ done = FALSE

Name == <<115, 46, 115, 116, 121, 120>>       \* s.styx
Agree(r, what, exp, got, ok) == IF ok THEN TRUE ELSE Mismatch(r, what, exp, got)

\* positions lead back to their offsets
LeadsBack(cs, L) ==
  Len(cs) > 30 \/ \A i \in 0..Len(cs) :
    (i > 0 /\ i < Len(cs) /\ cs[i] = 13 /\ cs[i + 1] = 10) \/ LET p == Pos(cs, L, i) IN Back(cs, L, p[1], p[2]) = i

Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ LET r == Recs[n] IN
           IF r.panics # <<>> THEN NoPanic(r)
           ELSE LET cs == r.cs
                    L == LineStarts(cs)
                    E == Events(cs)
                    C == CST!Cst(cs)
                    I == Inside(C.o, 1, <<>>)
                    S == IF r.ss = <<-1>> THEN <<>> ELSE Events(r.ss)
                    file == IF r.ss = <<-1>> THEN <<>> ELSE IF HasErr(S) THEN <<>> ELSE << Schema(TreeOf(S)) >>
                    d == Diagnostics(cs, L, C.o, C.r, E, Name, file)
                    sy == SymbolAnswer(cs, L, E)
                IN /\ Assert(LeadsBack(cs, L), <<"positions do not lead back", cs>>)
                   /\ Agree(r, "diagnostics", d, r.view[1], SameBag(d, r.view[1]))
                   /\ Same(r, "symbols", sy, r.view[2])
                   /\ Same(r, "tokens", SemTokens(cs, L, I), r.view[3])
                   /\ Same(r, "links", Links(cs, L, E, Name, file), r.view[4])
                   /\ Same(r, "highlighting", HiSpans(I), r.view[5])
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
