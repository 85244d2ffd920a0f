------------------------------ MODULE TraceParse ------------------------------
(***************************************************************************)
(* Trace validation of the parser: the events recorded from the real       *)
(* parser must be a behaviour of the machine of StyxParse.  One state per  *)
(* machine step; the events put out by a step must be the next ones of the *)
(* record, and nothing may be left at the end.  Along the way the machine  *)
(* itself is model checked: the invariants below talk about what it has    *)
(* put out so far.                                                         *)
(***************************************************************************)
EXTENDS StyxParse, Report

VARIABLES n, L, st, pos, bad, open
vars == <<n, L, st, pos, bad, open>>

Init == /\ n \in 1..Len(Recs)
        /\ L = <<>> /\ pos = 0 /\ bad = "" /\ open = <<>>
        /\ st = [InitState EXCEPT !.mode = "boot"]

Boot == /\ st.mode = "boot"
        /\ L' = Lex(Recs[n].cs) /\ st' = InitState
        /\ IF Recs[n].panics = <<>> THEN bad' = "" ELSE bad' = "panic" /\ NoPanic(Recs[n])
        /\ UNCHANGED <<n, pos, open>>

(* The stack of open structures after some events; "broken" when they do   *)
(* not nest, leave the document, or come in an impossible place.           *)
Opener == {"DocumentStart", "ObjectStart", "SequenceStart", "EntryStart", "TagStart"}
Closer(k) == CASE k = "DocumentEnd" -> "DocumentStart" [] k = "ObjectEnd" -> "ObjectStart"
               [] k = "SequenceEnd" -> "SequenceStart" [] k = "EntryEnd" -> "EntryStart"
               [] k = "TagEnd" -> "TagStart" [] OTHER -> ""
RECURSIVE Nest(_, _, _, _)
Nest(evs, i, stack, len) ==
  IF i > Len(evs) THEN stack
  ELSE LET e == evs[i]
           top == IF stack = <<>> THEN "" ELSE stack[Len(stack)]
       IN IF stack = <<"broken">> \/ ~(0 <= e[3] /\ e[3] <= e[4] /\ e[4] <= len) THEN <<"broken">>
          ELSE IF e[1] \in Opener
          THEN IF (e[1] = "EntryStart" => top = "ObjectStart") THEN Nest(evs, i + 1, Append(stack, e[1]), len)
               ELSE <<"broken">>
          ELSE IF Closer(e[1]) # ""
          THEN IF top = Closer(e[1]) THEN Nest(evs, i + 1, SubSeq(stack, 1, Len(stack) - 1), len) ELSE <<"broken">>
          ELSE IF e[1] \in {"Scalar", "Unit"} /\ top \in {"DocumentStart", "ObjectStart", ""} THEN <<"broken">>
          ELSE IF e[1] = "Key" /\ top # "EntryStart" THEN <<"broken">>
          ELSE Nest(evs, i + 1, stack, len)

Step == /\ st.mode \notin {"boot", "end"} /\ bad = ""
        /\ LET r == RootStep(Recs[n].cs, L, st)
               got == Slice(Recs[n].events, pos + 1, pos + Len(r.ev))
           IN /\ st' = r.st /\ pos' = pos + Len(r.ev)
              /\ open' = Nest(r.ev, 1, open, Len(Recs[n].cs))
              /\ IF got = r.ev THEN bad' = ""
                 ELSE bad' = "events" /\ Mismatch(Recs[n], "events", r.ev, Slice(Recs[n].events, pos + 1, pos + Len(r.ev) + 3))
        /\ UNCHANGED <<n, L>>

End == /\ st.mode = "end" /\ bad = ""
       /\ IF pos = Len(Recs[n].events) THEN bad' = "done"
          ELSE bad' = "extra" /\ Mismatch(Recs[n], "extra", <<>>, Slice(Recs[n].events, pos + 1, pos + 8))
       /\ UNCHANGED <<n, L, st, pos, open>>

Next == Boot \/ Step \/ End
Spec == Init /\ [][Next]_vars

(* Design-level invariants of the machine.  One thing is known to come     *)
(* after the end: the complaint about a doc comment that dangles before    *)
(* the closing brace of an explicit root, and about trailing content.      *)
Nested == open # <<"broken">>
Closed0 == st.mode = "after" => open = <<>>
InRange == st.mode \in {"boot", "end"} \/ st.i <= Len(L)
=============================================================================
