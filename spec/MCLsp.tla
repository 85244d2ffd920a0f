-------------------------------- MODULE MCLsp ----------------------------------
(***************************************************************************)
(* Design check of the language server's handling of documents.  Handlers   *)
(* run concurrently: a text is stored with a new revision when its message   *)
(* arrives; later its diagnostics are computed and queued; later still they  *)
(* are sent, unless the revision has moved on.  Allowing an extension checks *)
(* all open documents again.  Every behaviour keeps the promises of StyxLsp. *)
(* With Fifo or Guard turned off TLC finds the interleavings that break them.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, StyxLsp
CONSTANTS Uris, Texts, MaxMsgs, Fifo, Guard

VARIABLES rev,     \* revision of each document
          todo,    \* handlers at work: <<uri, rev, text, version>>
          queue,   \* handlers waiting to publish: the same and allowed
          ext,     \* is the extension allowed
          allows,  \* allow commands under way: "set" then "check"
          msgs,    \* messages so far
          s, ok
vars == <<rev, todo, queue, ext, allows, msgs, s, ok>>

D(u, t, a) == 10 + 2 * t + a

Init == /\ rev = [u \in Uris |-> 0] /\ todo = {} /\ queue = <<>> /\ ext = FALSE /\ allows = 0
        /\ msgs = 0 /\ s = S0(Uris) /\ ok = TRUE

More == msgs < MaxMsgs /\ msgs' = msgs + 1
Opens(u) == [u2 \in Uris |-> IF u2 = u THEN rev[u] + 1 ELSE rev[u2]]

Text(u, t) == /\ More /\ rev' = Opens(u)
              /\ todo' = todo \cup {<<u, rev'[u], t, msgs'>>}
              /\ s' = SetText(s, u, t, msgs')
              /\ UNCHANGED <<queue, ext, allows, ok>>
Close(u) == /\ More /\ IsOpen(s, u) /\ rev' = Opens(u)
            /\ queue' = Append(queue, <<u, rev'[u], -1, -1, 0>>)
            /\ s' = CloseDoc(s, u)
            /\ UNCHANGED <<todo, ext, allows, ok>>
Allow == /\ More /\ allows = 0 /\ ~ext /\ ext' = TRUE /\ allows' = 1
         /\ s' = AllowStarts(s)
         /\ UNCHANGED <<rev, todo, queue, ok>>
Recheck == /\ allows = 1 /\ allows' = 2
           /\ LET us == {u \in Uris : IsOpen(s, u)} IN
              todo' = todo \cup {<<u, rev[u], TextOf(s, u), VersionOf(s, u)>> : u \in us}
           /\ s' = AllowEnds(s)
           /\ UNCHANGED <<rev, queue, ext, msgs, ok>>
Compute(h) == /\ todo' = todo \ {h}
              /\ queue' = Append(queue, h \o <<IF ext THEN 1 ELSE 0>>)
              /\ UNCHANGED <<rev, ext, allows, msgs, s, ok>>
Send(i) == LET h == queue[i] IN
           /\ queue' = SubSeq(queue, 1, i - 1) \o SubSeq(queue, i + 1, Len(queue))
           /\ IF Guard /\ rev[h[1]] # h[2] THEN UNCHANGED <<s, ok>>
              ELSE LET d == IF h[3] < 0 THEN NoDiag ELSE D(h[1], h[3], h[5]) IN
                   IF About(s, D, h[1], h[4], d) = {} THEN ok' = FALSE /\ UNCHANGED s
                   ELSE s' = Published(s, D, h[1], h[4], d) /\ UNCHANGED ok
           /\ UNCHANGED <<rev, todo, ext, allows, msgs>>

Next == \/ \E u \in Uris, t \in Texts : Text(u, t)
        \/ \E u \in Uris : Close(u)
        \/ Allow \/ Recheck
        \/ \E h \in todo : Compute(h)
        \/ \E i \in 1..Len(queue) : (Fifo => i = 1) /\ Send(i)
Spec == Init /\ [][Next]_vars

NeverBack == ok
AtRest == (todo = {} /\ queue = <<>> /\ allows # 1) => \A u \in Uris : Settled(s, D, u)
=============================================================================
