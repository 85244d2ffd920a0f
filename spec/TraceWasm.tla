------------------------------ MODULE TraceWasm -------------------------------
(***************************************************************************)
(* What the browser bindings say of a text and convert is what it is.       *)
(***************************************************************************)
EXTENDS StyxWasm, Report

VARIABLES n, done
Init == n \in 1..Len(Recs) /\ done = FALSE
Agree(r, what, exp, got, ok) == IF ok THEN TRUE ELSE Mismatch(r, what, exp, got)
Says(ok) == IF ok THEN "ok" ELSE "refused"

\* m: <<"ok", json, json of its text>> or <<"refused">>, of the text with events E
Made(r, what, m, E) ==
  IF HasErr(E) THEN Agree(r, what, <<"refused">>, m, m = <<"refused">>)
  ELSE LET d == TreeOf(E) IN
       /\ Agree(r, what, <<"ok">>, m, m[1] = "ok")
       /\ m[1] # "ok" \/ ~Plain(d) \/
            /\ Agree(r, what, Meaning(d), m[2], IsJson(m[2], d))
            /\ Agree(r, what, Meaning(d), m[3], IsJson(m[3], d))

Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ LET r == Recs[n] IN
           IF r.panics # <<>> THEN NoPanic(r)
           ELSE LET E == Events(r.cs)
                    w == r.wasm
                    errs == SelectSeq(E, IsErr)
                IN /\ Same(r, "told", <<Says(~HasErr(E)), [j \in 1..Len(errs) |-> <<errs[j][3], errs[j][4], "error">>], Says(~HasErr(E))>>, w[1])
                   /\ Made(r, "json", w[2], E)
                   \* j: what the JSON text holds, <<"bad">> when it is none
                   /\ IF r.j[1] = "bad" THEN Agree(r, "from", "refused", w[3][1], w[3][1] = "refused")
                      ELSE IF r.j[1] # "obj" \/ StandsForTag(r.j)
                      \* no document: refused, or at least nothing that means something else
                      THEN Agree(r, "from", "an answer", w[3][1], w[3][1] \in {"ok", "refused"})
                      ELSE /\ Agree(r, "from", "ok", w[3][1], w[3][1] = "ok")
                           /\ w[3][1] # "ok" \/
                                LET F == Events(w[3][2]) IN
                                IF HasErr(F) THEN Mismatch(r, "written", r.j, w[3][2])
                                ELSE /\ (LET d == TreeOf(F) IN
                                         Holds2(d, r.j, FALSE) \/ Mismatch(r, IF Holds2(d, r.j, TRUE) THEN "boxed" ELSE "written", r.j, w[3][2]))
                                     /\ Made(r, "back", w[4], F)
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
