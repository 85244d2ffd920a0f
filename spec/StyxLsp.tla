-------------------------------- MODULE StyxLsp --------------------------------
(***************************************************************************)
(* What a client of the language server may rely on, whatever the order in *)
(* which concurrently handled messages go on:                               *)
(*  - published diagnostics of a document never go back to an older text;   *)
(*  - when the server has nothing left to do, the diagnostics the client    *)
(*    was told last are those of the last text (none for a closed document),*)
(*    and know whether the extension of its schema was allowed;             *)
(*  - a request is answered about the text the document had when the        *)
(*    request arrived.                                                       *)
(*                                                                          *)
(* The diagnostics D(u, t, a) of text t of document u, with extensions      *)
(* allowed or not (a = 1, 0), and the answers to requests are parameters.   *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

NoDiag == 1      \* the id of the empty list of diagnostics
NoAnswer == 0    \* the id of null
No == 0
Maybe == 1       \* being allowed
Yes == 2

\* hist[u]: what the document was, in order: <<text, version, allowed on arrival>>,
\*          text -1 for closed;
\* shown[u]: <<index in hist, allowed, diagnostics>> the client was told last
S0(us) == [hist |-> [u \in us |-> <<>>], shown |-> [u \in us |-> <<0, 0, NoDiag>>], allowed |-> No]

IsOpen(s, u) == s.hist[u] # <<>> /\ s.hist[u][Len(s.hist[u])][1] >= 0
TextOf(s, u) == s.hist[u][Len(s.hist[u])][1]
VersionOf(s, u) == s.hist[u][Len(s.hist[u])][2]

SetText(s, u, t, v) == [s EXCEPT !.hist[u] = Append(@, <<t, v, s.allowed>>)]
CloseDoc(s, u) == [s EXCEPT !.hist[u] = Append(@, <<-1, -1, s.allowed>>)]
AllowStarts(s) == [s EXCEPT !.allowed = IF @ = Yes THEN Yes ELSE Maybe]
AllowEnds(s) == [s EXCEPT !.allowed = Yes]

DiagOf(D(_, _, _), u, e, a) == IF e[1] < 0 THEN NoDiag ELSE D(u, e[1], a)

\* what a publication may be about
About(s, D(_, _, _), u, v, d) ==
  { <<k, a>> \in (1..Len(s.hist[u])) \X {0, 1} :
      LET e == s.hist[u][k] IN
      /\ k > s.shown[u][1] \/ (k = s.shown[u][1] /\ a >= s.shown[u][2])
      /\ a = 1 => s.allowed # No
      /\ a = 0 => e[3] # Yes
      /\ e[2] = v
      /\ DiagOf(D, u, e, a) = d }
Earliest(c) == CHOOSE x \in c : \A y \in c : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Published(s, D(_, _, _), u, v, d) ==
  LET e == Earliest(About(s, D, u, v, d)) IN [s EXCEPT !.shown[u] = <<e[1], e[2], d>>]

\* nothing is under way: what the client was told is what holds
Settled(s, D(_, _, _), u) ==
  s.hist[u] # <<>> =>
    LET e == s.hist[u][Len(s.hist[u])] IN
    s.shown[u][3] = DiagOf(D, u, e, IF s.allowed = Yes THEN 1 ELSE 0)
=============================================================================
