------------------------------ MODULE TraceShape ------------------------------
(***************************************************************************)
(* The schemas generated from types accept what StyxShape says they accept,  *)
(* what satisfies them can be read, and they tell defaults and documentation. *)
(***************************************************************************)
EXTENDS StyxShape, Report

VARIABLES n, done
Init == n \in 1..Len(Recs) /\ done = FALSE
W_meta == <<109, 101, 116, 97>>
W_id == <<105, 100>>
W_description == <<100, 101, 115, 99, 114, 105, 112, 116, 105, 111, 110>>
W_cli == <<99, 108, 105>>
W_lsp == <<108, 115, 112>>
W_launch == <<108, 97, 117, 110, 99, 104>>
TextAt(v, name) == IF HasEntry(v, name) THEN Entry(v, name)[2].t ELSE <<>>
RootOf(top) == top.e[CHOOSE j \in 1..Len(top.e) : IsUnitV(top.e[j][1])][2]

(* what GenerateSchema writes: the same schema, and what it was told *)
Built(r) ==
  LET S == Events(r.read.built) IN
  IF HasErr(S) THEN Mismatch(r, "unparsable", <<>>, r.read.built)
  ELSE LET file == TreeOf(S)
           meta == Entry(file, W_meta)[2]
           top == Entry(file, W_schema)[2]
           d == Differs(r.defs, r.ty, top, RootOf(top), {}, <<>>)
       IN /\ Same(r, "crate", <<99, 114, 97, 116, 101, 58, 97, 45, 98, 64, 49, 46, 50, 46, 51>>, TextAt(meta, W_id))
          /\ Same(r, "cli", <<116, 111, 111, 108, 32, 120>>, TextAt(meta, W_cli))
          /\ Same(r, "description", r.desc, TextAt(meta, W_description))
          /\ Holds(r, "launch", HasEntry(meta, W_lsp) /\ LET l == Entry(Entry(meta, W_lsp)[2], W_launch)[2] IN
                Len(l.i) = 2 /\ l.i[1].t = <<116, 111, 111, 108>> /\ l.i[2].t = <<108, 115, 112, 32, 101, 120, 116>>)
          /\ (d = <<>> \/ Mismatch(r, "told", <<>>, d[1]))

Next == /\ ~done /\ done' = TRUE /\ UNCHANGED n
        /\ LET r == Recs[n] IN
           IF r.panics # <<>> THEN NoPanic(r)
           ELSE LET S == Events(r.read.schema) IN
                IF HasErr(S) THEN Mismatch(r, "unparsable", <<>>, r.read.schema)
                ELSE LET file == TreeOf(S)
                         E == Events(r.cs)
                         v == Joined(TreeOf(E))
                         valid == Valid(Verdict(Schema(file), TreeOf(E)))
                         may == Fit(r.defs, r.ty, v, FALSE)
                         must == Fit(r.defs, r.ty, v, TRUE)
                         top == Entry(file, W_schema)[2]
                         meta == Entry(file, W_meta)[2]
                         d == Differs(r.defs, r.ty, top, RootOf(top), {}, <<>>)
                     IN /\ (r.cs = <<>> => Built(r))
                        /\ (r.nm = <<>> \/ Same(r, "name", r.nm, Entry(meta, W_id)[2].t))
                        /\ (r.desc = <<>> \/ Same(r, "description", r.desc, TextAt(meta, W_description)))
                        /\ (d = <<>> \/ Mismatch(r, "told", <<>>, d[1]))
                        /\ IF HasErr(E) THEN TRUE
                           ELSE /\ (may # 2 \/ valid \/ Mismatch(r, "too strict", <<>>, r.read.schema))
                                /\ (may # 0 \/ ~valid \/ Mismatch(r, "too lax", <<>>, r.read.schema))
                                /\ (must # 2 \/ may = 2 \/ Mismatch(r, "specification", <<>>, <<>>))
                                /\ (must # 2 \/ r.read.ok \/ Mismatch(r, "unreadable", <<>>, <<>>))
Spec == Init /\ [][Next]_<<n, done>>
=============================================================================
