------------------------------- MODULE TraceCli -------------------------------
(***************************************************************************)
(* Sessions of real commands in a directory are behaviours of StyxCli: each *)
(* exit code, what is printed, and the files after every command.           *)
(***************************************************************************)
EXTENDS StyxCli, Report

FsOf(list) == [p \in {list[j][1] : j \in 1..Len(list)} |->
                 LET j == CHOOSE j \in 1..Len(list) : list[j][1] = p IN [k |-> list[j][2], t |-> list[j][3]]]

VARIABLES n, i, fs
vars == <<n, i, fs>>
Init == /\ n \in 1..Len(Recs) /\ i = 1 /\ fs = FsOf(Recs[n].fs)

(* what was written is what should be, given as the text and as it was read by a parser *)
Right(r, res, o, doc) ==
  CASE res.what = "none" -> TRUE
    [] res.what = "any" -> TRUE
    [] res.what = "text" -> Same(r, "written", res.val, o.text)
    [] res.what = "json" -> IF OddKey(res.val) THEN TRUE
                            ELSE IF o.json # <<>> /\ FromJ(o.json[1]) = ToJ(res.val) THEN TRUE
                            ELSE Mismatch(r, IF Collides(res.val) THEN "collision" ELSE "json", <<>>, o.json)
    [] res.what = "tree" -> Same(r, "tree", res.val, o.tree)
    [] res.what = "error" -> Same(r, "tree", res.val, o.tree)

Step(r) ==
  LET o == r.steps[i]
      res == Run(fs, r.env, o.c, o.stdin)
      changed == {p \in (DOMAIN fs \cup DOMAIN FsOf(o.fs)) :
                    p \notin DOMAIN fs \/ p \notin DOMAIN FsOf(o.fs) \/ fs[p] # FsOf(o.fs)[p]}
      there == IF res.to = <<>> THEN <<>> ELSE o.fs[CHOOSE j \in 1..Len(o.fs) : o.fs[j][1] = res.to[1]][3]
  IN IF res.code # o.code THEN Mismatch(r, "code", <<i, res.code>>, <<o.argv, o.code>>) /\ UNCHANGED fs
     ELSE IF ~(changed \subseteq {res.to[j] : j \in 1..Len(res.to)}) THEN Mismatch(r, "files", <<i, res.to>>, <<o.argv, changed>>) /\ UNCHANGED fs
     ELSE IF res.to # <<>> /\ ~(res.to[1] \in DOMAIN FsOf(o.fs)) THEN Mismatch(r, "files", <<i, res.to>>, o.argv) /\ UNCHANGED fs
     ELSE /\ IF res.what # "any" /\ (res.to # <<>> \/ res.what = "none") /\ o.out # <<>> THEN Mismatch(r, "output", <<i, <<>>>>, <<o.argv, o.out>>) ELSE TRUE
          /\ IF res.said # o.said THEN Mismatch(r, "said", <<i, res.said>>, o.argv) ELSE TRUE
          /\ Right(r, res, o, <<>>)
          /\ fs' = After(fs, res, there)

Next == /\ i <= Len(Recs[n].steps) /\ i' = i + 1 /\ UNCHANGED n /\ Step(Recs[n])
Spec == Init /\ [][Next]_vars

(* what the machine promises about any command, checked on the same sessions *)
Promises ==
  i <= Len(Recs[n].steps) =>
    LET r == Recs[n]
        c == r.steps[i].c
        res == Run(fs, r.env, c, r.steps[i].stdin)
    IN /\ res.code # 0 => res.to = <<>> /\ res.what = "none" /\ res.said
       /\ res.to # <<>> => c.cmd = "file"
       /\ (res.to # <<>> /\ Find(fs, c.input).st = "file" /\ res.to[1] = Find(fs, c.input).p) => c.inplace
=============================================================================
