------------------------------- MODULE TraceLex -------------------------------
(***************************************************************************)
(* Trace validation of the tokenizer and the lexer.  The token stream of   *)
(* the real tokenizer is followed token by token; the lexemes likewise.    *)
(***************************************************************************)
EXTENDS StyxLex, Report

VARIABLES n, phase, p, k, d
vars == <<n, phase, p, k, d>>
\* p: position in the document, k: records consumed, d: open heredoc's delimiter (<<0>> \o text)

Init == n \in 1..Len(Recs) /\ phase = "tok" /\ p = 1 /\ k = 0 /\ d = <<>>

R == Recs[n]

Plain == /\ phase = "tok" /\ R.panics = <<>> /\ d = <<>> /\ p <= Len(R.cs)
         /\ LET t == TokAt(R.cs, p)
                exp == <<t.k, t.s - 1, t.e - 1, Text(R.cs, t.s, t.e)>>
                got == Slice(R.tokens, k + 1, k + 1)
            IN /\ p' = t.e /\ k' = k + 1
               /\ d' = IF t.k = "HeredocStart" THEN <<0>> \o HdOpen(R.cs, p).d ELSE <<>>
               /\ IF got = <<exp>> THEN phase' = "tok" ELSE phase' = "bad" /\ Mismatch(R, "token", exp, got)
         /\ UNCHANGED n

Heredoc == /\ phase = "tok" /\ d # <<>>
           /\ LET h == HdTokens(R.cs, p, Tail(d))
                  exp == [i \in 1..Len(h) |-> <<h[i].k, h[i].s - 1, h[i].e - 1, Text(R.cs, h[i].s, h[i].e)>>]
                  got == Slice(R.tokens, k + 1, k + Len(h))
              IN /\ p' = h[Len(h)].e /\ k' = k + Len(h) /\ d' = <<>>
                 /\ IF got = exp \/ (p > Len(R.cs) /\ got = <<>>) THEN phase' = "tok"
                    ELSE phase' = "bad" /\ Mismatch(R, "heredoc", exp, got)
           /\ UNCHANGED n

TokEnd == /\ phase = "tok" /\ R.panics = <<>> /\ d = <<>> /\ p > Len(R.cs)
          /\ IF Len(R.tokens) <= k THEN phase' = "lex" /\ p' = 1 /\ k' = 0
             ELSE phase' = "bad" /\ UNCHANGED <<p, k>> /\ Mismatch(R, "extra token", <<>>, Slice(R.tokens, k + 1, k + 4))
          /\ UNCHANGED <<n, d>>

LexStep == /\ phase = "lex"
           /\ LET x == LexAt(R.cs, p)
                  y == x.x
                  exp == <<y.k, IF y.k = "Error" THEN "" ELSE y.n, y.s, y.e, y.t, y.p>>
                  got == Slice(R.lexemes, k + 1, k + 1)
              IN /\ p' = x.p /\ k' = k + 1
                 /\ IF got # <<exp>> THEN phase' = "bad" /\ Mismatch(R, "lexeme", exp, got)
                    ELSE phase' = IF y.k = "Eof" THEN "end" ELSE "lex"
           /\ UNCHANGED <<n, d>>

LexEnd == /\ phase = "end"
          /\ phase' = IF Len(R.lexemes) = k THEN "done" ELSE "bad"
          /\ IF Len(R.lexemes) = k THEN TRUE ELSE Mismatch(R, "extra lexeme", <<>>, Slice(R.lexemes, k + 1, k + 4))
          /\ UNCHANGED <<n, p, k, d>>

Panic == phase = "tok" /\ R.panics # <<>> /\ NoPanic(R) /\ phase' = "bad" /\ UNCHANGED <<n, p, k, d>>

Next == Panic \/ Plain \/ Heredoc \/ TokEnd \/ LexStep \/ LexEnd
Spec == Init /\ [][Next]_vars

(* The specification's own tokens: every step gets further in the document *)
Progress == [][(phase = "tok" /\ phase' = "tok" /\ d = <<>>) => p' > p]_vars
Inside == p <= Len(R.cs) + 1
=============================================================================
