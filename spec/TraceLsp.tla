-------------------------------- MODULE TraceLsp -------------------------------
(***************************************************************************)
(* Sessions with the real language server, its handlers scheduled at will,  *)
(* are behaviours of StyxLsp.                                                *)
(***************************************************************************)
EXTENDS StyxLsp, Report

VARIABLES n, i, s, want   \* want: the answers requests under way shall get
vars == <<n, i, s, want>>

\* <<u, t, diagnostics, diagnostics if allowed, answers>>
Fact(r, u, t) == r.session[1][u * r.nt + t + 1]
D(r, u, t, a) == Fact(r, u, t)[3 + a]
Log(r) == r.session[2]
Us(r) == 0..r.nu - 1

Init == n \in 1..Len(Recs) /\ i = 1 /\ s = S0(Us(Recs[n])) /\ want = [m \in 1..Len(Recs[n].msgs) |-> -1]

Recv(r, m, k) ==
  CASE m[1] = "open" -> s' = SetText(s, m[2], m[4], m[3]) /\ UNCHANGED want
    [] m[1] = "change" -> s' = SetText(s, m[2], m[4][Len(m[4])], m[3]) /\ UNCHANGED want
    [] m[1] = "close" -> s' = CloseDoc(s, m[2]) /\ UNCHANGED want
    [] m[1] = "allow" -> s' = (IF m[3] = r.command THEN AllowStarts(s) ELSE s) /\ UNCHANGED want
    [] m[1] = "ask" -> want' = [want EXCEPT ![k] = IF IsOpen(s, m[2]) THEN Fact(r, m[2], TextOf(s, m[2]))[5][m[3] + 1] ELSE NoAnswer]
                       /\ UNCHANGED s
Done(r, m, k, a) ==
  /\ IF m[1] = "ask" THEN Same(r, "answer", <<k, m, want[k]>>, <<k, m, a>>) ELSE TRUE
  /\ s' = IF m[1] = "allow" /\ m[3] = r.command THEN AllowEnds(s) ELSE s
  /\ UNCHANGED want
Pub(r, u, v, d) ==
  LET DD(x, t, a) == D(r, x, t, a) IN
  /\ UNCHANGED want
  /\ IF u \in Us(r) /\ About(s, DD, u, v, d) # {} THEN s' = Published(s, DD, u, v, d)
     ELSE /\ Mismatch(r, "publication", <<u, IF u \in Us(r) THEN s.hist[u] ELSE <<>>, s.allowed>>, <<u, v, d>>)
          /\ UNCHANGED s
End(r) ==
  LET DD(x, t, a) == D(r, x, t, a) IN
  /\ Same(r, "unfinished", 0, r.session[3])
  /\ \A u \in Us(r) : IF Settled(s, DD, u) THEN TRUE ELSE Mismatch(r, "at rest", <<u, s.hist[u], s.allowed>>, <<u, s.shown[u]>>)
  /\ UNCHANGED <<s, want>>

Next == LET r == Recs[n] IN
        /\ UNCHANGED n
        /\ IF r.panics # <<>> THEN i = 1 /\ NoPanic(r) /\ i' = 2 /\ UNCHANGED <<s, want>>
           ELSE /\ i <= Len(Log(r)) + 1 /\ i' = i + 1
                /\ IF i = Len(Log(r)) + 1 THEN End(r)
                   ELSE LET l == Log(r)[i] IN
                        CASE l[1] = "recv" -> Recv(r, r.msgs[l[2] + 1], l[2] + 1)
                          [] l[1] = "done" -> Done(r, r.msgs[l[2] + 1], l[2] + 1, l[4])
                          [] l[1] = "pub" -> Pub(r, l[2], l[3], l[4])
Spec == Init /\ [][Next]_vars
=============================================================================
