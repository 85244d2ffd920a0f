----------------------------- MODULE TraceProgram -----------------------------
(* A program built with the macros holds each of its schemas once.          *)
EXTENDS Report, FiniteSets

Times(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
VARIABLES n, i
vars == <<n, i>>
Init == n \in 1..Len(Recs) /\ i = 0
Next == LET r == Recs[n] IN
        /\ UNCHANGED n /\ i <= Len(r.texts) /\ i' = i + 1
        /\ IF i = 0 THEN NoPanic(r) /\ Same(r, "number", <<TRUE, Len(r.texts)>>, <<r.file[1], Len(r.file[2])>>)
           ELSE Same(r, "embedded", <<Times(r.texts, r.texts[i]), r.texts[i]>>, <<Times(r.file[2], r.texts[i]), r.texts[i]>>)
Spec == Init /\ [][Next]_vars
=============================================================================
