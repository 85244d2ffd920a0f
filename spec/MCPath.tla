-------------------------------- MODULE MCPath --------------------------------
(***************************************************************************)
(* Design check of the key/path rules: entries with paths over a small     *)
(* alphabet are added to one object in every order; the machine of         *)
(* StyxParse (PathStep, which remembers only the open path and what is     *)
(* closed beneath it) must give the verdict of the rule stated over the    *)
(* whole history.                                                          *)
(***************************************************************************)
EXTENDS StyxParse, FiniteSets
CONSTANTS Names, MaxPath, MaxLen
ASSUME MaxPath >= 1

Paths == UNION {[1..k -> {ScalarId(<<x>>) : x \in Names}] : k \in 1..MaxPath}
Kinds == {"Object", "Terminal"}

VARIABLES hist, ps, last
vars == <<hist, ps, last>>

Pre(p, k) == SubSeq(p, 1, k)
IsPre(p, q) == Len(p) <= Len(q) /\ Pre(q, Len(p)) = p

(* The rule over the whole history of accepted entries *)
Repeated(h, p) == \E i \in 1..Len(h) : IsPre(p, h[i].path)
IntoTerminal(h, p) == \E i \in 1..Len(h) :
   h[i].kind = "Terminal" /\ IsPre(h[i].path, p) /\ h[i].path # p
ReopensClosed(h, p) == \E k \in 1..Len(p), i \in 1..Len(h), j \in 1..Len(h) :
   i < j /\ IsPre(Pre(p, k), h[i].path) /\ ~IsPre(Pre(p, k), h[j].path)
Allowed(h, p) == ~Repeated(h, p) /\ ~IntoTerminal(h, p) /\ ~ReopensClosed(h, p)

Init == hist = <<>> /\ ps = EmptyPath /\ last = TRUE

Add(p, k) ==
  LET r == PathStep(ps, p, <<Len(hist), Len(hist)>>, k) IN
  /\ last /\ Len(hist) < MaxLen
  /\ Assert((r.err = <<>>) = Allowed(hist, p), <<"verdict", hist, p, k, r.err>>)
  /\ IF r.err # <<>>
     THEN Assert(\/ r.err[1] = "DuplicateKey" /\ Repeated(hist, p)
                 \/ r.err[1] = "NestIntoTerminal" /\ IntoTerminal(hist, p)
                 \/ r.err[1] = "ReopenedPath" /\ ReopensClosed(hist, p), <<"reason", hist, p, k, r.err>>)
     ELSE TRUE
  /\ last' = (r.err = <<>>)
  /\ IF r.err = <<>> THEN ps' = r.ps /\ hist' = Append(hist, [path |-> p, kind |-> k])
     ELSE UNCHANGED <<ps, hist>>

Next == \E p \in Paths, k \in Kinds : Add(p, k)
Spec == Init /\ [][Next]_vars

(* the open path is the path of the last accepted entry *)
OpenIsLast == hist # <<>> => [i \in 1..Len(ps.segs) |-> ps.segs[i].key] = hist[Len(hist)].path
=============================================================================
