------------------------------ MODULE TraceEmbed ------------------------------
(* What the real scanner and the real object reader give for a file.        *)
EXTENDS StyxEmbed, Report

VARIABLES n, way, s
vars == <<n, way, s>>
Range(r, w) == IF w = 1 \/ ~r.parses THEN <<1, Len(r.data)>> ELSE Place(r.sections, Len(r.data))
Init == n \in 1..Len(Recs) /\ way \in 1..3 /\ s = Scanner(Range(Recs[n], way)[1])
Next == LET r == Recs[n]
            w == Range(r, way)
        IN /\ UNCHANGED <<n, way>>
           /\ ~Done(s)
           /\ IF r.panics # <<>> THEN NoPanic(r) /\ s' = [s EXCEPT !.form = 0]
              ELSE /\ s' = Scan(s, r.data, w[1], w[2], r.facts)
                   /\ IF ~Done(s') THEN TRUE
                      ELSE Same(r, <<"scan", "object", "file">>[way], <<s'.found # <<>>, s'.found>>, r.extract[way])
Spec == Init /\ [][Next]_vars
=============================================================================
