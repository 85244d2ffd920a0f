------------------------------ MODULE StyxTyped -------------------------------
(***************************************************************************)
(* Reading a document into a typed value.  A type is described by a record  *)
(*   [t, lo, hi, s, f, d, x]                                                *)
(* t: what it is; lo, hi: bounds of integers (decimal text); s: the types it *)
(* is made of; f: fields or variants <<name, kind, type, default>>; x: flag. *)
(* Reads(T, v) is                                                            *)
(*   <<"ok", value>>   the document holds this value,                        *)
(*   <<"no", <<>>>>    the document holds no value of the type,              *)
(*   <<"any", <<>>>>   nothing is promised (see the uses of Free).           *)
(* Values: <<"s", text>> <<"n", decimal>> <<"b", <<0 or 1>>>> <<"c", <<char>>>> *)
(* <<"f", float>> <<"o", at most one>> <<"l", items>> <<"t", items>>          *)
(* <<"m", pairs in key order>> <<"r", fields>> <<"e", <<variant, values>>>>   *)
(* <<"d", <<value, doc lines>>>>.                                             *)
(***************************************************************************)
EXTENDS StyxSchema

No == <<"no", <<>>>>
Free == <<"any", <<>>>>
Ok(x) == <<"ok", x>>

(* combine the answers for the parts: any refusal refuses *)
All(rs, Make(_)) ==
  IF \E j \in 1..Len(rs) : rs[j] = No THEN No
  ELSE IF \E j \in 1..Len(rs) : rs[j] = Free THEN Free
  ELSE Ok(Make([j \in 1..Len(rs) |-> rs[j][2]]))

----------------------------------------------------------------------------
(* Scalars.  All are text in the document; the type says how to read them.   *)

Signed(t) == t # <<>> /\ t[1] \in {43, 45}
(* decimal text of an integer in its normal form *)
IntText(t) ==
  LET d == Strip0(IF Signed(t) THEN Tail(t) ELSE t) IN
  IF d = <<>> THEN <<48>> ELSE IF t[1] = 45 THEN <<45>> \o d ELSE d

Natural(d) == Num(FALSE, d, Len(d))
Whole(t) ==                                  \* any size, unlike IntNum
  LET d == IF Signed(t) THEN Tail(t) ELSE t
  IN IF d = <<>> \/ DigEnd(d, 1) # Len(d) + 1 THEN NoNum ELSE Num(Signed(t) /\ t[1] = 45, d, Len(d))

ReadInt(T, t) ==
  LET n == Whole(t) IN
  IF ~n.ok THEN No
  ELSE IF T.lo = <<48>> /\ Signed(t) /\ t[1] = 45 THEN IF n.d = <<>> THEN Free ELSE No
  ELSE IF NumLess(n, Whole(T.lo)) \/ NumLess(Whole(T.hi), n) THEN No
  ELSE Ok(<<"n", IntText(t)>>)

LowCase(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerText(t) == [j \in 1..Len(t) |-> LowCase(t[j])]
W_inf == <<105, 110, 102>>
W_infinity == <<105, 110, 102, 105, 110, 105, 116, 121>>
W_nan == <<110, 97, 110>>

(* Floats: sign, digits with a point somewhere, exponent; or a name *)
ReadFloat(T, t) ==
  LET neg == Signed(t) /\ t[1] = 45
      u == IF Signed(t) THEN Tail(t) ELSE t
      b == DigEnd(u, 1)
      dot == At(u, b) = 46
      c == IF dot THEN DigEnd(u, b + 1) ELSE b
      ex == At(u, c) \in {69, 101}
      sgn == ex /\ At(u, c + 1) \in {43, 45}
      e0 == c + 1 + (IF sgn THEN 1 ELSE 0)
      z == IF ex THEN DigEnd(u, e0) ELSE c
      ds == SubSeq(u, 1, b - 1) \o (IF dot THEN SubSeq(u, b + 1, c - 1) ELSE <<>>)
      good == ds # <<>> /\ (ex => z > e0) /\ z = Len(u) + 1
      eds == Strip0(SubSeq(u, e0, z - 1))
      em == IF Len(eds) > 6 THEN 999999 ELSE NatOf(eds)
      ee == IF ~ex THEN 0 ELSE IF sgn /\ u[c + 1] = 45 THEN -em ELSE em
      n == Num(neg, ds, (b - 1) + ee)
  IN IF LowerText(u) \in {W_inf, W_infinity} THEN Ok(<<"f", <<"inf", IF neg THEN 1 ELSE 0, <<>>, 0>>>>)
     ELSE IF LowerText(u) = W_nan THEN Ok(<<"f", <<"nan", 0, <<>>, 0>>>>)
     ELSE IF ~good THEN No
     ELSE IF n.d = <<>> THEN Ok(<<"f", <<"fin", 0, <<>>, 0>>>>)
     \* beyond the digits or the range the type can hold: only that it is read
     ELSE IF Len(n.d) > (IF T.x THEN 6 ELSE 15) \/ n.x > (IF T.x THEN 37 ELSE 307) \/ n.x < -(IF T.x THEN 36 ELSE 306) THEN Free
     ELSE Ok(<<"f", <<"fin", IF neg THEN 1 ELSE 0, n.d, n.x>>>>)

ReadText(T, t) ==
  CASE T.t = "str" -> Ok(<<"s", t>>)
    [] T.t = "int" -> ReadInt(T, t)
    [] T.t = "float" -> ReadFloat(T, t)
    [] T.t = "bool" -> IF t = W_true THEN Ok(<<"b", <<1>>>>) ELSE IF t = W_false THEN Ok(<<"b", <<0>>>>) ELSE No
    [] T.t = "char" -> IF Len(t) = 1 THEN Ok(<<"c", t>>) ELSE No

----------------------------------------------------------------------------
IsObj(v) == v.g = <<>> /\ v.k = "obj"
IsSeq(v) == v.g = <<>> /\ v.k = "seq"
PlainKey(k) == k.g = <<>> /\ k.k = "scalar"

(* insertion into pairs ordered by key *)
RECURSIVE Ins(_, _)
Ins(ps, p) ==
  IF ps = <<>> THEN <<p>>
  ELSE IF LexLess(p[1], ps[1][1]) THEN <<p>> \o ps
  ELSE <<ps[1]>> \o Ins(Tail(ps), p)
RECURSIVE ByKey(_)
ByKey(ps) == IF ps = <<>> THEN <<>> ELSE Ins(ByKey(Tail(ps)), ps[1])
RECURSIVE InsText(_, _)
InsText(ps, p) ==
  IF ps = <<>> THEN <<p>>
  ELSE IF p = ps[1] THEN ps
  ELSE IF LexLess(p[2], ps[1][2]) THEN <<p>> \o ps
  ELSE <<ps[1]>> \o InsText(Tail(ps), p)
RECURSIVE AsSet(_)
AsSet(xs) == IF xs = <<>> THEN <<>> ELSE InsText(AsSet(Tail(xs)), xs[1])

RECURSIVE SplitLines(_)
SplitLines(t) ==
  IF \E j \in 1..Len(t) : t[j] = 10
  THEN LET j == CHOOSE q \in 1..Len(t) : t[q] = 10 /\ \A i \in 1..(q - 1) : t[i] # 10
       IN <<SubSeq(t, 1, j - 1)>> \o SplitLines(SubSeq(t, j + 1, Len(t)))
  ELSE <<t>>
DocLines(doc) == IF doc = <<>> THEN <<>> ELSE SplitLines(Tail(doc))

(* A unit that is written, @, against one that is left out, whose place is
   that of its key. *)
Written(v, key) == IsUnitV(v) /\ v.sp # <<>> /\ v.sp[2] > v.sp[1] /\ v.sp # key.sp
RECURSIVE Unwrite(_)
Unwrite(v) ==
  LET w(x, key) == IF Written(x, key) THEN [x EXCEPT !.sp = <<>>] ELSE Unwrite(x) IN
  [v EXCEPT !.i = [j \in 1..Len(v.i) |-> w(v.i[j], v)],
            !.e = [j \in 1..Len(v.e) |-> <<v.e[j][1], w(v.e[j][2], v.e[j][1]), v.e[j][3]>>]]

RECURSIVE Refs(_, _, _, _)

Named2(defs, x) == defs[CHOOSE j \in 1..Len(defs) : defs[j][1] = x][2]
FieldAt(es, name) == {j \in 1..Len(es) : PlainKey(es[j][1]) /\ es[j][1].t = name}

(* One field of a record: kind is "req", "opt" (absent is none) or "def"     *)
ReadField(defs, F, es, src) ==
  LET js == FieldAt(es, F[1]) IN
  IF js # {} THEN LET e == es[CHOOSE j \in js : TRUE] IN
    IF F[3].t = "doc"                                  \* with its documentation
    THEN All(<<Refs(defs, F[3], e, src)>>, LAMBDA x : <<"d", <<x[1], DocLines(e[3])>>>>)
    ELSE Refs(defs, F[3], e, src)
  ELSE IF F[2] = "opt" THEN Ok(<<"o", <<>>>>)
  ELSE IF F[2] = "def" THEN Ok(F[4])
  ELSE No

(* e: the entry <<key, value, doc>> that holds the value *)
Refs(defs, T, e, src) ==
  LET v == e[2] IN
  CASE T.t = "ref" -> Refs(defs, Named2(defs, T.lo), e, src)
    [] T.t \in {"str", "int", "float", "bool", "char"} ->
         IF IsText(v) THEN ReadText(T, v.t)
         ELSE IF IsUnitV(v) THEN Free                  \* unit as a scalar
         ELSE No
    [] T.t = "raw" ->
         \* the source of the value; a unit that is not written and objects
         \* made of dotted keys have none of their own
         IF IsUnitV(v) \/ src = <<>> \/ v.sp = <<>> THEN Free
         ELSE LET bare == v.k = "none" /\ v.sp[2] > v.sp[1] + 1              \* a tag alone
                  s == IF v.g = <<>> \/ bare THEN v.sp[1] ELSE v.sp[1] - Len(v.g)
              IN IF v.c # <<>> THEN Free                                     \* a chain of tags
                 ELSE IF IsObj(v) /\ src[s + 1] # 123 THEN Free
                 ELSE Ok(<<"s", SubSeq(src, s + 1, v.sp[2])>>)
    [] T.t = "doc" -> Refs(defs, T.s[1], e, src)
    [] T.t = "opt" ->
         IF Written(v, e[1]) THEN Free                 \* see the listed finding
         ELSE IF IsUnitV(v) THEN Ok(<<"o", <<>>>>)
         ELSE All(<<Refs(defs, T.s[1], e, src)>>, LAMBDA x : <<"o", x>>)
    [] T.t \in {"seq", "set"} ->
         IF ~IsSeq(v) THEN No
         ELSE All([j \in 1..Len(v.i) |-> Refs(defs, T.s[1], <<v, v.i[j], <<>>>>, src)],
                  LAMBDA x : <<"l", IF T.t = "set" THEN AsSet(x) ELSE x>>)
    [] T.t = "tup" ->
         IF IsObj(v) THEN Free                              \* an object with as many values
         ELSE IF ~IsSeq(v) \/ Len(v.i) # Len(T.s) THEN No
         ELSE All([j \in 1..Len(v.i) |-> Refs(defs, T.s[j], <<v, v.i[j], <<>>>>, src)], LAMBDA x : <<"t", x>>)
    [] T.t = "map" ->
         IF IsSeq(v) THEN Free                              \* a list as a map
         ELSE IF ~IsObj(v) THEN No
         ELSE LET rs == [j \in 1..Len(v.e) |-> Refs(defs, T.s[1], v.e[j], src)] IN
              IF \E j \in 1..Len(rs) : rs[j] = No THEN No
              ELSE IF \E j \in 1..Len(v.e) : ~PlainKey(v.e[j][1]) THEN Free       \* keys with tags
              ELSE IF T.lo # <<>>                                                \* keys are integers
              THEN LET ks == [j \in 1..Len(v.e) |-> ReadInt(T, v.e[j][1].t)] IN
                   IF \E j \in 1..Len(ks) : ks[j] = No THEN No
                   ELSE IF Len(ks) > 1 THEN Free                                 \* their order
                   ELSE All(rs, LAMBDA x : <<"m", [j \in 1..Len(x) |-> <<ks[j][2][2], x[j]>>]>>)
              ELSE All(rs, LAMBDA x : <<"m", ByKey([j \in 1..Len(x) |->
                     <<v.e[j][1].t, IF T.x THEN <<"d", <<x[j], DocLines(v.e[j][3])>>>> ELSE x[j]>>])>>)   \* keys with their documentation
    [] T.t = "rec" ->
         IF ~IsObj(v) THEN No
         ELSE LET known == {T.f[j][1] : j \in 1..Len(T.f)}
                  own == [j \in 1..Len(T.f) |-> ReadField(defs, T.f[j], v.e, src)]
                  other == SelectSeq(v.e, LAMBDA x : ~(PlainKey(x[1]) /\ x[1].t \in known))
                  rest == IF T.s = <<>> THEN <<>>
                          ELSE <<Refs(defs, T.s[1], <<v, [v EXCEPT !.e = other], <<>>>>, src)>>   \* a flattened field takes what is left
                  odd == \E j \in 1..Len(other) : ~PlainKey(other[j][1])
              IN IF odd /\ (T.x \/ T.s # <<>>) THEN Free
                 ELSE IF T.x /\ other # <<>> THEN No
                 ELSE All(own \o rest, LAMBDA x : <<"r", x>>)
    [] T.t = "enum" ->
         LET at(name) == {j \in 1..Len(T.f) : T.f[j][1] = name} IN
         IF v.g # <<>> THEN
           LET w == IF v.c = <<>> THEN [v EXCEPT !.g = <<>>] ELSE [v EXCEPT !.g = v.c[1], !.c = Tail(@)]
               js == at(TagOf(v))
               F == T.f[CHOOSE j \in js : TRUE]
           IN IF js = {} THEN No
              ELSE IF F[2] = "unit" THEN IF IsUnitV(w) THEN Ok(<<"e", <<F[1], <<>>>>>>)
                                         ELSE IF IsObj(w) /\ w.e = <<>> THEN Free ELSE No
              ELSE IF F[2] = "new" THEN All(<<Refs(defs, F[3], <<v, w, <<>>>>, <<>>)>>, LAMBDA x : <<"e", <<F[1], x>>>>)
              ELSE LET r == Refs(defs, F[3], <<v, w, <<>>>>, <<>>) IN      \* fields of a tuple or record
                   IF r[1] # "ok" THEN r ELSE Ok(<<"e", <<F[1], r[2][2]>>>>)
         ELSE IF IsText(v) THEN
           LET js == at(v.t) IN
           IF js # {} /\ T.f[CHOOSE j \in js : TRUE][2] = "unit" THEN Ok(<<"e", <<v.t, <<>>>>>>)
           ELSE No
         ELSE IF v.k = "obj" THEN Free                 \* {variant payload}
         ELSE No
    [] T.t = "untagged" ->                             \* the first that fits: small number, text, list, map
         LET as(n, x) == All(<<x>>, LAMBDA y : <<"e", <<n, y>>>>) IN
         IF IsText(v) THEN IF ReadInt(T, v.t)[1] = "ok" THEN as(<<78>>, ReadInt(T, v.t))
                           ELSE IF ReadInt(T, v.t) = Free THEN Free ELSE as(<<83>>, Ok(<<"s", v.t>>))
         ELSE IF IsSeq(v) THEN as(<<76>>, Refs(defs, T.s[1], e, src))
         ELSE IF IsObj(v) THEN as(<<77>>, Refs(defs, T.s[2], e, src))
         ELSE IF IsUnitV(v) THEN Free
         ELSE No

(* The entry that names the schema is not part of the data *)
Undeclare(v) == [v EXCEPT !.e = SelectSeq(v.e, LAMBDA x : x[1].g # <<0>> \o W_schema)]

ReadDoc(defs, T, v, src) == LET w == Undeclare(Joined(v)) IN Refs(defs, T, <<w, w, <<>>>>, src)
ReadExpr(defs, T, v, src) == LET w == Joined(v) IN Refs(defs, T, <<w, w, <<>>>>, src)
=============================================================================
