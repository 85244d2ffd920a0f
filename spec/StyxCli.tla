-------------------------------- MODULE StyxCli --------------------------------
(***************************************************************************)
(* The command line as a state machine over a directory.  The state is the  *)
(* tree of files; a command reads some of them and either fails, changing   *)
(* nothing, or writes its result to one place.                              *)
(*                                                                          *)
(* fs: path (sequence of segments) -> [k, t]; k: file, bin (not UTF-8),     *)
(* dir, link (t: the segments it leads to).                                 *)
(* env: what is taken from the libraries (each decided by its own           *)
(* property): fmt <<text, formatted, compact>>, reads <<text, a schema?>>,  *)
(* tools <<name, embedded schemas>>.                                        *)
(***************************************************************************)
EXTENDS StyxSchema

(* ---------------------------------------------------------------- paths *)
RECURSIVE SplitAt(_, _, _)
SplitAt(t, i, acc) ==
  IF i > Len(t) THEN <<acc>>
  ELSE IF t[i] = 47 THEN <<acc>> \o SplitAt(t, i + 1, <<>>)
  ELSE SplitAt(t, i + 1, Append(acc, t[i]))

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
Front1(s) == SubSeq(s, 1, Len(s) - 1)

(* [st, p]: file, dir or new (its directory exists) at p, or none *)
RECURSIVE Walk(_, _, _, _)
Walk(fs, at, segs, i) ==
  IF i > Len(segs) THEN [st |-> "dir", p |-> at]
  ELSE IF segs[i] = <<>> \/ segs[i] = <<46>> THEN Walk(fs, at, segs, i + 1)
  ELSE IF segs[i] = <<46, 46>> THEN IF at = <<>> THEN [st |-> "none", p |-> <<>>] ELSE Walk(fs, Front1(at), segs, i + 1)
  ELSE LET p == Append(at, segs[i]) IN
       IF p \notin DOMAIN fs THEN IF i = Len(segs) THEN [st |-> "new", p |-> p] ELSE [st |-> "none", p |-> <<>>]
       ELSE LET q == IF fs[p].k = "link" THEN fs[p].t ELSE p IN
            IF fs[q].k = "dir" THEN Walk(fs, q, segs, i + 1)
            ELSE IF i = Len(segs) THEN [st |-> "file", p |-> q] ELSE [st |-> "none", p |-> <<>>]

Find(fs, path) == IF path = <<>> THEN [st |-> "none", p |-> <<>>] ELSE Walk(fs, <<>>, SplitAt(path, 1, <<>>), 1)

Content(fs, path) ==                    \* <<text>>, or <<>> when it cannot be read as text
  LET f == Find(fs, path) IN IF f.st = "file" /\ fs[f.p].k = "file" THEN <<fs[f.p].t>> ELSE <<>>

CanWrite(fs, path) == Find(fs, path).st \in {"file", "new"}

SameFile(fs, a, b) ==
  LET x == Find(fs, a)
      y == Find(fs, b)
  IN IF x.st \in {"file", "dir"} /\ y.st \in {"file", "dir"} THEN x.p = y.p ELSE a = b

Parent(path) == LET j == CHOOSE j \in 0..Len(path) : (j = 0 \/ path[j] = 47) /\ \A q \in (j + 1)..Len(path) : path[q] # 47
                IN SubSeq(path, 1, IF j = 0 THEN 0 ELSE j - 1)

(* ----------------------------------------------------------- embedded *)
W_schemaTag == <<0>> \o W_schema
W_cli  == <<99, 108, 105>>
W_id   == <<105, 100>>
W_meta == <<109, 101, 116, 97>>
W_http  == <<104, 116, 116, 112, 58, 47, 47>>
W_https == <<104, 116, 116, 112, 115, 58, 47, 47>>

Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p

(* the value of the first entry with a plain key, <<v>> or <<>> *)
GetV(v, name) == IF v.k # "obj" THEN <<>> ELSE LET j == EntryOf(v.e, name) IN IF j = 0 THEN <<>> ELSE <<v.e[j][2]>>
TextOf(vs) == IF vs # <<>> /\ IsText(vs[1]) THEN <<vs[1].t>> ELSE <<>>

SchemaId(text) ==
  LET E == Events(text) IN
  IF HasErr(E) THEN <<>>
  ELSE LET m == GetV(TreeOf(E), W_meta) IN IF m = <<>> THEN <<>> ELSE TextOf(GetV(m[1], W_id))

(* ---------------------------------------------------------- validation *)
(* which schema: [code, t] with code 0 when t is its text *)
NoSchema(code) == [code |-> code, t |-> <<>>]
LoadSchema(fs, env, path) ==
  LET t == Content(fs, path) IN
  IF t = <<>> THEN NoSchema(3)
  ELSE IF \E j \in 1..Len(env.reads) : env.reads[j] = <<t[1], TRUE>> THEN [code |-> 0, t |-> t[1]] ELSE NoSchema(1)

EmbeddedSchema(env, name, id) ==
  LET found == {j \in 1..Len(env.tools) : env.tools[j][1] = name}
      ts == IF found = {} THEN <<>> ELSE env.tools[CHOOSE j \in found : TRUE][2]
      ok == IF id = <<>> THEN {j \in 1..Len(ts) : j = 1} ELSE {j \in 1..Len(ts) : SchemaId(ts[j]) = id}
  IN IF ok = {} THEN NoSchema(2)
     ELSE LET t == ts[CHOOSE j \in ok : \A q \in ok : j <= q] IN
          IF \E j \in 1..Len(env.reads) : env.reads[j] = <<t, TRUE>> THEN [code |-> 0, t |-> t] ELSE NoSchema(1)

SchemaKeys(v) == {j \in 1..Len(v.e) : v.e[j][1].g = W_schemaTag}

DeclaredSchema(fs, env, v, input) ==
  IF SchemaKeys(v) = {} THEN NoSchema(2)
  ELSE LET s == v.e[CHOOSE j \in SchemaKeys(v) : \A q \in SchemaKeys(v) : j <= q][2] IN
       IF IsText(s)
       THEN IF Starts(s.t, W_http) \/ Starts(s.t, W_https) THEN NoSchema(1)
            ELSE LET dir == IF input = <<45>> THEN <<>> ELSE Parent(input)
                 IN LoadSchema(fs, env, IF dir = <<>> THEN s.t ELSE dir \o <<47>> \o s.t)
       ELSE IF s.k = "obj"
            THEN LET c == TextOf(GetV(s, W_cli)) IN
                 IF c = <<>> THEN NoSchema(2) ELSE EmbeddedSchema(env, c[1], TextOf(GetV(s, W_id)))
       ELSE NoSchema(2)

Undeclared(v) == [v EXCEPT !.e = SelectSeq(v.e, LAMBDA x : x[1].g # W_schemaTag)]

(* ---------------------------------------------------------------- JSON *)
(* <<"null">>, <<"str", t>>, <<"arr", items>>, <<"obj", set of <<name, value>>>> *)
W_tag     == <<36, 116, 97, 103>>
W_payload == <<36, 112, 97, 121, 108, 111, 97, 100>>

KeyName(k) ==
  IF k.g = <<>> THEN IF k.k = "scalar" THEN k.t ELSE <<64>>
  ELSE <<64>> \o Tail(k.g) \o (IF k.k = "scalar" THEN <<34>> \o k.t \o <<34>> ELSE <<>>)
KeyIs(k) == <<k.g, k.k, k.t>>

(* two different keys of an object with one name in JSON *)
RECURSIVE Collides(_)
Collides(v) ==
  \/ \E a, b \in 1..Len(v.e) : KeyName(v.e[a][1]) = KeyName(v.e[b][1]) /\ KeyIs(v.e[a][1]) # KeyIs(v.e[b][1])
  \/ \E j \in 1..Len(v.i) : Collides(v.i[j])
  \/ \E j \in 1..Len(v.e) : Collides(v.e[j][2])
(* keys whose name has to be escaped, which is left open *)
RECURSIVE OddKey(_)
OddKey(v) ==
  \/ \E j \in 1..Len(v.e) : LET k == v.e[j][1] IN k.g # <<>> /\ \E q \in 1..Len(k.t) : k.t[q] \in {34, 39, 92} \/ k.t[q] < 32 \/ k.t[q] > 126
  \/ \E j \in 1..Len(v.i) : OddKey(v.i[j])
  \/ \E j \in 1..Len(v.e) : OddKey(v.e[j][2])

RECURSIVE ToJ(_)
RECURSIVE ObjJ(_)
RECURSIVE MergeJ(_)
PayJ(v) == CASE v.k = "scalar" -> <<"str", v.t>>
             [] v.k = "seq" -> <<"arr", [j \in 1..Len(v.i) |-> ToJ(v.i[j])]>>
             [] v.k = "obj" -> <<"obj", ObjJ(v.e)>>
ToJ(v) ==
  IF v.g # <<>> THEN <<"obj", {<<W_tag, <<"str", Tail(v.g)>>>>} \cup (IF v.k = "none" THEN {} ELSE {<<W_payload, PayJ(v)>>})>>
  ELSE IF v.k = "none" THEN <<"null">> ELSE PayJ(v)
(* entries with one key are the parts of one object *)
MergeJ(es) == IF Len(es) = 1 THEN ToJ(es[1][2])
              ELSE <<"obj", ObjJ(Flat([j \in 1..Len(es) |-> es[j][2].e]))>>
ObjJ(es) == {<<nm, MergeJ(SelectSeq(es, LAMBDA x : KeyName(x[1]) = nm))>> : nm \in {KeyName(es[j][1]) : j \in 1..Len(es)}}
(* a recorded JSON value, its objects as sets; an object with a name twice is no value *)
RECURSIVE FromJ(_)
FromJ(j) ==
  CASE j[1] = "arr" -> <<"arr", [q \in 1..Len(j[2]) |-> FromJ(j[2][q])]>>
    [] j[1] = "obj" -> LET s == {<<j[2][q][1], FromJ(j[2][q][2])>> : q \in 1..Len(j[2])}
                       IN IF Cardinality({x[1] : x \in s}) = Len(j[2]) THEN <<"obj", s>> ELSE <<"twice">>
    [] OTHER -> j

(* ------------------------------------------------------------- commands *)
(* c: the command, kind and options; stdin: its standard input as <<text>>  *)
(* or <<>> when it is not text.                                             *)
(* Result: code; what is written (none, text, json, tree, error, schemas)   *)
(* and val; to: <<>> for standard output, else the place; said: whether     *)
(* something is reported.                                                   *)
Fail(code) == [code |-> code, what |-> "none", val |-> <<>>, to |-> <<>>, said |-> TRUE]
Put(what, val, to, said) == [code |-> 0, what |-> what, val |-> val, to |-> to, said |-> said]

Dash == <<45>>
Input(fs, c, stdin) == IF c.input = Dash THEN stdin ELSE Content(fs, c.input)

\* where an output goes: <<>> standard output, <<path>> a file, or it fails
Emit(fs, what, val, path, said) ==
  IF path = Dash THEN Put(what, val, <<>>, said)
  ELSE IF CanWrite(fs, path) THEN Put(what, val, <<Find(fs, path).p>>, said) ELSE Fail(3)

FileMode(fs, env, c, stdin) ==
  LET isIn == c.input = Dash
      other(p) == p = <<>> \/ isIn \/ p[1] = Dash \/ ~SameFile(fs, c.input, p[1])
      src == Input(fs, c, stdin)
      E == Events(src[1])
      v == TreeOf(E)
      s == IF c.schema # <<>> THEN LoadSchema(fs, env, c.schema[1]) ELSE DeclaredSchema(fs, env, v, c.input)
      verdict == Verdict(Schema(TreeOf(Events(s.t))), Undeclared(v))
      said == c.validate /\ verdict.w # <<>>
      F == env.fmt[CHOOSE j \in 1..Len(env.fmt) : env.fmt[j][1] = src[1]]
      out == F[IF c.compact THEN 3 ELSE 2]
  IN IF c.inplace /\ isIn THEN Fail(1)
     ELSE IF c.schema # <<>> /\ ~c.validate THEN Fail(1)
     ELSE IF ~other(c.output) \/ ~other(c.json) THEN Fail(1)
     ELSE IF src = <<>> THEN Fail(3)
     ELSE IF HasErr(E) THEN Fail(1)
     ELSE IF c.validate /\ s.code # 0 THEN Fail(s.code)
     ELSE IF c.validate /\ verdict.e # <<>> THEN Fail(2)
     ELSE IF c.validate /\ c.json = <<>> /\ c.output = <<>> /\ ~c.inplace THEN Put("none", <<>>, <<>>, said)
     ELSE IF c.json # <<>> THEN Emit(fs, "json", v, c.json[1], said)
     ELSE IF c.inplace THEN Emit(fs, "text", out, c.input, said)
     ELSE Emit(fs, "text", out, IF c.output = <<>> THEN Dash ELSE c.output[1], said)

(* the printed tree leaves doc comments out *)
RECURSIVE Undoc(_)
Undoc(v) == [v EXCEPT !.i = [j \in 1..Len(v.i) |-> Undoc(v.i[j])],
                      !.e = [j \in 1..Len(v.e) |-> <<v.e[j][1], Undoc(v.e[j][2]), <<>>>>]]

TreeMode(fs, c, stdin) ==
  LET src == Input(fs, c, stdin)
      E == Events(src[1])
  IN IF src = <<>> THEN Fail(3)
     ELSE IF c.format = "sexp"
          THEN IF HasErr(E) THEN Put("error", <<FirstErr(E)[3], FirstErr(E)[4]>>, <<>>, FALSE)
               ELSE Put("tree", Enc(Undoc(TreeOf(E))), <<>>, FALSE)
     ELSE IF c.format = "debug" THEN IF HasErr(E) THEN Fail(1) ELSE Put("any", <<>>, <<>>, FALSE)
     ELSE Fail(1)

ExtractMode(fs, env, c) ==
  LET found == {j \in 1..Len(env.tools) : env.tools[j][3] = c.input}
      ts == IF found = {} THEN <<>> ELSE env.tools[CHOOSE j \in found : TRUE][2]
      lines == [j \in 1..Len(ts) |-> IF ts[j] # <<>> /\ ts[j][Len(ts[j])] = 10 THEN ts[j] ELSE Append(ts[j], 10)]
  IN IF ts = <<>> THEN Fail(3) ELSE Put("text", Flat(lines), <<>>, Len(ts) > 1)

Run(fs, env, c, stdin) ==
  CASE c.cmd = "file" -> FileMode(fs, env, c, stdin)
    [] c.cmd = "bad" -> Fail(1)
    [] c.cmd = "tree" -> TreeMode(fs, c, stdin)
    [] c.cmd = "show" -> IF Input(fs, c, stdin) = <<>> THEN Fail(3) ELSE Put("any", <<>>, <<>>, FALSE)
    [] c.cmd = "extract" -> ExtractMode(fs, env, c)

(* the files afterwards, when what was written is the text t *)
After(fs, res, t) == IF res.to = <<>> THEN fs ELSE (res.to[1] :> [k |-> "file", t |-> t]) @@ fs
=============================================================================
