------------------------------- MODULE TraceCapi ------------------------------
(***************************************************************************)
(* Histories of calls of the C API are behaviours of the machine of open   *)
(* documents and handles.                                                   *)
(***************************************************************************)
EXTENDS StyxAccess, Report

VARIABLES n, i, c
vars == <<n, i, c>>
Init == n \in 1..Len(Recs) /\ i = 1 /\ c = C0

Next == LET r == Recs[n]
            s == COp(c, r.ops[i])
        IN /\ UNCHANGED n
           /\ IF r.panics # <<>> THEN i = 1 /\ NoPanic(r) /\ i' = Len(r.ops) + 1 /\ UNCHANGED c
              ELSE /\ i <= Len(r.ops) /\ i' = i + 1 /\ c' = s.c
                   /\ IF s.a = r.capi[i] THEN TRUE
                      ELSE Mismatch(r, IF r.ops[i][1] = "read" /\ \E q \in 2..Len(s.a[4]) : s.a[4][q] = 0 THEN "nul" ELSE "answer",
                                    <<i, r.ops[i], s.a>>, r.capi[i])
Spec == Init /\ [][Next]_vars

\* every handle is into a document that is open
Safe == /\ \A x \in DOMAIN c.vals : c.vals[x][1] \in DOMAIN c.docs
        /\ \A x \in DOMAIN c.objs : c.objs[x][1] \in DOMAIN c.docs
        /\ \A x \in DOMAIN c.seqs : c.seqs[x][1] \in DOMAIN c.docs
=============================================================================
