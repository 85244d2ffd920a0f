------------------------------ MODULE StyxSchema ------------------------------
(***************************************************************************)
(* Schemas and what they say about a document.  A schema file is itself a   *)
(* Styx document; Schema reads one from its tree, Verdict gives the errors  *)
(* and warnings of a document tree.                                         *)
(*   error:   <<kind, path, span, detail>>                                  *)
(*   warning: <<path, span>>                                                *)
(* The order of errors carries no meaning: they are compared as bags.       *)
(***************************************************************************)
EXTENDS StyxTree, FiniteSets

W_string      == <<115, 116, 114, 105, 110, 103>>   \* string
W_int         == <<105, 110, 116>>   \* int
W_float       == <<102, 108, 111, 97, 116>>   \* float
W_bool        == <<98, 111, 111, 108>>   \* bool
W_unit        == <<117, 110, 105, 116>>   \* unit
W_any         == <<97, 110, 121>>   \* any
W_object      == <<111, 98, 106, 101, 99, 116>>   \* object
W_seq         == <<115, 101, 113>>   \* seq
W_tuple       == <<116, 117, 112, 108, 101>>   \* tuple
W_map         == <<109, 97, 112>>   \* map
W_union       == <<117, 110, 105, 111, 110>>   \* union
W_optional    == <<111, 112, 116, 105, 111, 110, 97, 108>>   \* optional
W_enum        == <<101, 110, 117, 109>>   \* enum
W_oneof       == <<111, 110, 101, 45, 111, 102>>   \* one-of
W_flatten     == <<102, 108, 97, 116, 116, 101, 110>>   \* flatten
W_default     == <<100, 101, 102, 97, 117, 108, 116>>   \* default
W_deprecated  == <<100, 101, 112, 114, 101, 99, 97, 116, 101, 100>>   \* deprecated
W_literal     == <<108, 105, 116, 101, 114, 97, 108>>   \* literal
W_schema      == <<115, 99, 104, 101, 109, 97>>   \* schema
W_min         == <<109, 105, 110>>   \* min
W_max         == <<109, 97, 120>>   \* max
W_minLen      == <<109, 105, 110, 76, 101, 110>>   \* minLen
W_maxLen      == <<109, 97, 120, 76, 101, 110>>   \* maxLen
W_pattern     == <<112, 97, 116, 116, 101, 114, 110>>   \* pattern
W_true        == <<116, 114, 117, 101>>   \* true
W_false       == <<102, 97, 108, 115, 101>>   \* false

IsUnitV(v) == v.g = <<>> /\ v.k = "none"
IsText(v)  == v.g = <<>> /\ v.k = "scalar"
TagOf(v)   == Tail(v.g)

----------------------------------------------------------------------------
(* Numbers, as digit sequences: TLC's integers have 32 bits *)

RECURSIVE DigEnd(_, _)
DigEnd(t, p) == IF p <= Len(t) /\ Digit(t[p]) THEN DigEnd(t, p + 1) ELSE p
RECURSIVE Strip0(_)
Strip0(d) == IF d # <<>> /\ d[1] = 48 THEN Strip0(Tail(d)) ELSE d
RECURSIVE StripR0(_)
StripR0(d) == IF d # <<>> /\ d[Len(d)] = 48 THEN StripR0(SubSeq(d, 1, Len(d) - 1)) ELSE d
RECURSIVE LexLess(_, _)
LexLess(a, b) ==
  IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
  ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLess(Tail(a), Tail(b))
RECURSIVE NatOf(_)
NatOf(d) == IF d = <<>> THEN 0 ELSE 10 * NatOf(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)] - 48

(* number: [ok, neg, d, x] meaning (-) 0.d * 10^x with d without zeros at *)
(* either end; zero has d = <<>>                                           *)
Num(neg, d, x) ==
  LET lead == Len(d) - Len(Strip0(d))
      s == StripR0(Strip0(d))
  IN [ok |-> TRUE, neg |-> neg /\ s # <<>>, d |-> s, x |-> IF s = <<>> THEN 0 ELSE x - lead]
NoNum == [ok |-> FALSE]

MagLess(a, b) ==
  IF b.d = <<>> THEN FALSE ELSE IF a.d = <<>> THEN TRUE
  ELSE IF a.x # b.x THEN a.x < b.x ELSE LexLess(a.d, b.d)
NumLess(a, b) ==
  IF a.neg # b.neg THEN a.neg
  ELSE IF a.neg THEN MagLess(b, a) ELSE MagLess(a, b)

I128Max == Num(FALSE, <<49,55,48,49,52,49,49,56,51,52,54,48,52,54,57,50,51,49,55,51,49,54,56,55,51,48,51,55,49,53,56,56,52,49,48,53,55,50,55>>, 39)
I128Min == Num(TRUE,  <<49,55,48,49,52,49,49,56,51,52,54,48,52,54,57,50,51,49,55,51,49,54,56,55,51,48,51,55,49,53,56,56,52,49,48,53,55,50,56>>, 39)

(* integers: an optional sign and digits, within 128 bits *)
IntNum(t) ==
  LET signed == t # <<>> /\ t[1] \in {43, 45}
      d == IF signed THEN Tail(t) ELSE t
      n == Num(signed /\ t[1] = 45, d, Len(d))
  IN IF d = <<>> \/ DigEnd(d, 1) # Len(d) + 1 THEN NoNum
     ELSE IF NumLess(I128Max, n) \/ NumLess(n, I128Min) THEN NoNum ELSE n

(* floats: JSON number syntax, finite as a double *)
FloatNum(t) ==
  LET neg == t # <<>> /\ t[1] = 45
      a == IF neg THEN 2 ELSE 1                         \* integer digits from a
      b == DigEnd(t, a)
      dot == At(t, b) = 46
      c == IF dot THEN DigEnd(t, b + 1) ELSE b
      ex == At(t, c) \in {69, 101}
      sgn == ex /\ At(t, c + 1) \in {43, 45}
      e0 == c + 1 + (IF sgn THEN 1 ELSE 0)
      z == IF ex THEN DigEnd(t, e0) ELSE c
      good == /\ b > a /\ (At(t, a) # 48 \/ b = a + 1)
              /\ (dot => c > b + 1)
              /\ (ex => z > e0)
              /\ z = Len(t) + 1
      eds == Strip0(SubSeq(t, e0, z - 1))
      em == IF Len(eds) > 6 THEN 999999 ELSE NatOf(eds)
      ee == IF ~ex THEN 0 ELSE IF sgn /\ t[c + 1] = 45 THEN -em ELSE em
      ds == SubSeq(t, a, b - 1) \o (IF dot THEN SubSeq(t, b + 1, c - 1) ELSE <<>>)
      n == Num(neg, ds, (b - a) + ee)
  IN IF ~good THEN NoNum
     ELSE IF n.d = <<>> THEN n
     ELSE IF n.x > 309 THEN NoNum                       \* infinite
     ELSE IF n.x < -330 THEN Num(FALSE, <<>>, 0)        \* underflows to zero
     ELSE n

----------------------------------------------------------------------------
(* Reading a schema from the tree of its document *)

EntryOf(es, name) ==              \* index of the entry with this plain key, or 0
  IF \E j \in 1..Len(es) : IsText(es[j][1]) /\ es[j][1].t = name
  THEN CHOOSE j \in 1..Len(es) : IsText(es[j][1]) /\ es[j][1].t = name ELSE 0

Bound(v, name) ==
  LET j == IF v.k = "obj" THEN EntryOf(v.e, name) ELSE 0
  IN IF j = 0 THEN <<>> ELSE << v.e[j][2].t >>

RECURSIVE Dec(_)
DecKey(k) == IF k.g = <<>> THEN IF k.k = "scalar" THEN <<"name", k.t>> ELSE <<"any", <<>>>>
             ELSE <<"pat", TagOf(k)>>
DecItems(v) == [j \in 1..Len(v.i) |-> Dec(v.i[j])]
DecEntries(v) == [j \in 1..Len(v.e) |-> <<DecKey(v.e[j][1]), Dec(v.e[j][2])>>]

Dec(v) ==
  IF v.g = <<>> /\ v.k = "scalar" THEN [t |-> "literal", x |-> v.t]
  ELSE IF v.g = <<>> THEN [t |-> "unit"]                \* the bare unit
  ELSE LET w == TagOf(v) IN
    CASE w = W_string -> [t |-> "string", lo |-> Bound(v, W_minLen), hi |-> Bound(v, W_maxLen), pat |-> Bound(v, W_pattern)]
      [] w = W_int -> [t |-> "int", lo |-> Bound(v, W_min), hi |-> Bound(v, W_max)]
      [] w = W_float -> [t |-> "float", lo |-> Bound(v, W_min), hi |-> Bound(v, W_max)]
      [] w = W_bool -> [t |-> "bool"]
      [] w = W_unit -> [t |-> "unit"]
      [] w = W_any -> [t |-> "any"]
      [] w = W_object -> [t |-> "object", f |-> DecEntries(v)]
      [] w = W_seq -> [t |-> "seq", s |-> Dec(v.i[1])]
      [] w = W_tuple -> [t |-> "tuple", s |-> DecItems(v)]
      [] w = W_map -> [t |-> "map", s |-> DecItems(v)]
      [] w = W_union -> [t |-> "union", s |-> DecItems(v)]
      [] w = W_optional -> [t |-> "optional", s |-> Dec(v.i[1])]
      [] w = W_enum -> [t |-> "enum", f |-> DecEntries(v)]
      [] w = W_oneof -> [t |-> "oneof", s |-> Dec(v.i[1]), a |-> v.i[2].i]
      [] w = W_flatten -> [t |-> "flatten", s |-> Dec(v.i[1])]
      [] w = W_default -> [t |-> "default", s |-> Dec(v.i[2]), x |-> v.i[1]]
      [] w = W_deprecated -> [t |-> "deprecated", s |-> Dec(v.i[2])]
      [] w = W_literal -> [t |-> "literal", x |-> v.t]
      [] OTHER -> [t |-> "ref", x |-> w]

(* the named types of a schema file: <<key, schema>>, the root has key any *)
Schema(v) == LET d == Joined(v) IN DecEntries(d.e[EntryOf(d.e, W_schema)][2])

Named(types, x) ==                \* <<schema>> or <<>>
  IF \E j \in 1..Len(types) : types[j][1] = <<"name", x>>
  THEN << types[CHOOSE j \in 1..Len(types) : types[j][1] = <<"name", x>>][2] >> ELSE <<>>
Root(types) ==
  IF \E j \in 1..Len(types) : types[j][1][1] = "any"
  THEN << types[CHOOSE j \in 1..Len(types) : types[j][1][1] = "any"][2] >> ELSE <<>>

----------------------------------------------------------------------------
(* The fields of an object with those of flattened types inlined:           *)
(* [ok, f].  Not ok: the schema itself is at fault.                          *)

RECURSIVE Deref(_, _, _)          \* follow aliases: [ok, s, seen]
Deref(types, s, seen) ==
  IF s.t # "ref" THEN [ok |-> TRUE, s |-> s, seen |-> seen]
  ELSE IF s.x \in seen \/ Named(types, s.x) = <<>> THEN [ok |-> FALSE]
  ELSE Deref(types, Named(types, s.x)[1], seen \cup {s.x})

RECURSIVE Inline(_, _, _, _)
Inline(types, fs, seen, acc) ==
  IF fs = <<>> THEN [ok |-> TRUE, f |-> acc]
  ELSE LET k == fs[1][1]
           s == fs[1][2]
       IN IF k[1] = "name" /\ s.t = "flatten"
          THEN LET d == Deref(types, s.s, seen) IN
               IF ~d.ok THEN [ok |-> FALSE]
               ELSE IF d.s.t # "object" THEN [ok |-> FALSE]
               ELSE LET r == Inline(types, d.s.f, d.seen, acc)
                    IN IF r.ok THEN Inline(types, Tail(fs), seen, r.f) ELSE r
          ELSE IF \E j \in 1..Len(acc) : acc[j][1] = k THEN [ok |-> FALSE]
          ELSE Inline(types, Tail(fs), seen, Append(acc, fs[1]))

RECURSIVE AllowsAbsence(_, _, _)
AllowsAbsence(types, s, seen) ==
  CASE s.t \in {"optional", "default"} -> TRUE
    [] s.t = "deprecated" -> AllowsAbsence(types, s.s, seen)
    [] s.t = "ref" -> /\ s.x \notin seen
                      /\ Named(types, s.x) # <<>>
                      /\ AllowsAbsence(types, Named(types, s.x)[1], seen \cup {s.x})
    [] OTHER -> FALSE

----------------------------------------------------------------------------
(* Typo suggestions *)

Fold(t) == [j \in 1..Len(t) |-> IF Upper(t[j]) THEN t[j] + 32 ELSE IF t[j] = 201 THEN 233 ELSE t[j]]
Min3(a, b, c) == LET m == IF a < b THEN a ELSE b IN IF m < c THEN m ELSE c
RECURSIVE LevRow(_, _, _, _, _)   \* next row of the edit distance table
LevRow(c, b, prev, cur, j) ==
  IF j > Len(b) THEN cur
  ELSE LevRow(c, b, prev,
              Append(cur, Min3(prev[j + 1] + 1, cur[j] + 1, prev[j] + (IF c = b[j] THEN 0 ELSE 1))), j + 1)
RECURSIVE LevFrom(_, _, _, _)
LevFrom(a, b, i, row) == IF i > Len(a) THEN row[Len(b) + 1] ELSE LevFrom(a, b, i + 1, LevRow(a[i], b, row, <<i>>, 1))
Lev(a, b) == LevFrom(a, b, 1, [j \in 1..(Len(b) + 1) |-> j - 1])

Utf8(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE Utf8Len(_)
Utf8Len(t) == IF t = <<>> THEN 0 ELSE Utf8(t[1]) + Utf8Len(Tail(t))

(* the closest name, the first of equally close ones; <<0>> \o name or <<>> *)
Suggest(key, names) ==
  LET d(x) == Lev(Fold(key), Fold(x))
      close == {x \in names : d(x) <= 2 /\ (d(x) < Utf8Len(key) \/ (Utf8Len(key) = 0 /\ d(x) < 1))}
  IN IF close = {} THEN <<>>
     ELSE <<0>> \o (CHOOSE x \in close : \A y \in close : d(x) < d(y) \/ (d(x) = d(y) /\ (x = y \/ LexLess(x, y))))

----------------------------------------------------------------------------
(* Verdicts *)

Res(e, w) == [e |-> e, w |-> w]
Good == Res(<<>>, <<>>)
Bad(kind, path, sp, det) == Res(<< <<kind, path, sp, det>> >>, <<>>)
Both(a, b) == Res(a.e \o b.e, a.w \o b.w)
Valid(r) == r.e = <<>>

SubPath(path, t) == IF path = <<>> THEN t ELSE path \o <<46>> \o t
RECURSIVE DecText(_)
DecText(n) == IF n < 10 THEN <<48 + n>> ELSE DecText(n \div 10) \o <<48 + (n % 10)>>
ItemPath(path, i) == path \o <<91>> \o DecText(i) \o <<93>>

CheckNum(n, s, read(_), path, sp) ==
  IF ~n.ok THEN Bad("InvalidValue", path, sp, <<>>)
  ELSE Both(IF s.lo # <<>> /\ NumLess(n, read(s.lo[1])) THEN Bad("InvalidValue", path, sp, <<>>) ELSE Good,
            IF s.hi # <<>> /\ NumLess(read(s.hi[1]), n) THEN Bad("InvalidValue", path, sp, <<>>) ELSE Good)

(* patterns: only those without special characters, which stand for themselves *)
PatternRes(s, v, path) ==
  IF s.pat # <<>> /\ (\A j \in 1..Len(s.pat[1]) : Upper(s.pat[1][j]) \/ Lower(s.pat[1][j]) \/ Digit(s.pat[1][j])) /\ v.t # s.pat[1]
  THEN Bad("InvalidValue", path, v.sp, <<>>) ELSE Good

RECURSIVE Chk(_, _, _, _, _)      \* types, value, schema, path, types being checked for this value
RECURSIVE ChkEntries(_, _, _, _, _)
RECURSIVE ChkMap(_, _, _, _)
RECURSIVE ChkItems(_, _, _, _, _)
RECURSIVE ChkUnion(_, _, _, _, _)
RECURSIVE ChkCatch(_, _, _, _, _)
RECURSIVE ChkMissing(_, _, _, _, _)

ChkMissing(types, fs, seen, path, sp) ==
  IF fs = <<>> THEN Good
  ELSE LET k == fs[1][1]
           here == IF k[1] = "name" /\ k[2] \notin seen /\ ~AllowsAbsence(types, fs[1][2], {})
                   THEN Bad("MissingField", SubPath(path, k[2]), sp, k[2]) ELSE Good
       IN Both(here, ChkMissing(types, Tail(fs), seen, path, sp))

(* whether a catch-all key of a schema takes a key of a document *)
Takes(types, k, key) ==
  CASE k[1] = "any" -> TRUE
    [] k[2] = W_any -> TRUE
    [] k[2] = W_string -> key.k = "scalar"
    [] k[2] = W_int -> key.k = "scalar" /\ IntNum(key.t).ok
    [] k[2] = W_float -> key.k = "scalar" /\ FloatNum(key.t).ok
    [] k[2] = W_bool -> key.k = "scalar" /\ key.t \in {W_true, W_false}
    [] k[2] = W_unit -> IsUnitV(key)
    [] OTHER -> LET s == Named(types, k[2]) IN
                IF s # <<>> /\ s[1].t = "enum" THEN TRUE
                ELSE Valid(Chk(types, key, [t |-> "ref", x |-> k[2]], <<>>, {}))

(* the verdict of the first catch-all that accepts the value, or of the first *)
ChkCatch(types, cs, v, path, first) ==
  IF cs = <<>> THEN first
  ELSE LET r == Chk(types, v, cs[1], path, {}) IN
       IF Valid(r) THEN <<r>> ELSE ChkCatch(types, Tail(cs), v, path, IF first = <<>> THEN <<r>> ELSE first)

PatLess(a, b) == (a[1] = "pat" /\ b[1] = "any") \/ (a[1] = "pat" /\ b[1] = "pat" /\ LexLess(a[2], b[2]))
RECURSIVE SortPats(_)
SortPats(ps) ==                   \* patterns in order of their tags, @ last
  IF ps = {} THEN <<>>
  ELSE LET m == CHOOSE p \in ps : \A q \in ps : p = q \/ PatLess(p[1], q[1]) IN <<m>> \o SortPats(ps \ {m})

ChkEntries(types, fs, es, path, pats) ==
  IF es = <<>> THEN Good
  ELSE LET key == es[1][1]
           val == es[1][2]
           rest == ChkEntries(types, fs, Tail(es), path, pats)
           shown == IF IsText(key) THEN key.t ELSE <<64>>
           p == SubPath(path, shown)
           named == IF IsText(key) THEN {j \in 1..Len(fs) : fs[j][1] = <<"name", key.t>>} ELSE {}
           usable == SelectSeq(pats, LAMBDA x : Takes(types, x[1], key))
           c == ChkCatch(types, [j \in 1..Len(usable) |-> usable[j][2]], val, p, <<>>)
           names == {fs[j][1][2] : j \in {i \in 1..Len(fs) : fs[i][1][1] = "name"}}
           here == IF ~IsText(key) /\ ~IsUnitV(key) THEN Bad("InvalidValue", path, key.sp, <<>>)
                   ELSE IF named # {} THEN Chk(types, val, fs[CHOOSE j \in named : TRUE][2], p, {})
                   ELSE IF c # <<>> THEN c[1]
                   ELSE Bad("UnknownField", p, key.sp, <<shown, Suggest(shown, names)>>)
       IN Both(here, rest)

ChkMap(types, s, es, path) ==
  IF es = <<>> THEN Good
  ELSE LET key == es[1][1]
           ks == IF Len(s) = 2 THEN Chk(types, key, s[1], path, {}) ELSE Good
           unit == IsUnitV(key) /\ Len(s) = 2 /\ Valid(ks)
           shown == IF IsText(key) THEN key.t ELSE <<64>>
           here == IF ~IsText(key) /\ ~unit THEN Bad("InvalidValue", path, key.sp, <<>>)
                   ELSE Both(ks, Chk(types, es[1][2], s[Len(s)], SubPath(path, shown), {}))
       IN Both(here, ChkMap(types, s, Tail(es), path))

ChkItems(types, items, s, path, i) ==   \* s: one schema for each item
  IF i > Len(items) \/ i > Len(s) THEN Good
  ELSE Both(Chk(types, items[i], s[i], ItemPath(path, i - 1), {}), ChkItems(types, items, s, path, i + 1))

ChkUnion(types, v, s, path, act) ==
  IF s = <<>> THEN Bad("UnionMismatch", path, v.sp, <<>>)
  ELSE LET r == Chk(types, v, s[1], path, act) IN
       IF Valid(r) THEN r ELSE ChkUnion(types, v, Tail(s), path, act)

(* untagged scalars may stand for an enum variant with a scalar type *)
CanStand(s, t) ==
  \/ s.t = "string"
  \/ s.t = "int" /\ IntNum(t).ok
  \/ s.t = "float" /\ FloatNum(t).ok
  \/ s.t = "bool" /\ t \in {W_true, W_false}

Chk(types, v, s, path, act) ==
  CASE s.t = "any" -> Good
    [] s.t = "unit" -> IF IsUnitV(v) THEN Good ELSE Bad("TypeMismatch", path, v.sp, <<>>)
    [] s.t \in {"string", "int", "float", "bool", "literal"} ->
         IF v.k # "scalar" THEN Bad("ExpectedScalar", path, v.sp, <<>>)
         ELSE (CASE s.t = "string" ->
                     Both(PatternRes(s, v, path), Both(IF s.lo # <<>> /\ Len(v.t) < NatOf(s.lo[1]) THEN Bad("InvalidValue", path, v.sp, <<>>) ELSE Good,
                          IF s.hi # <<>> /\ Len(v.t) > NatOf(s.hi[1]) THEN Bad("InvalidValue", path, v.sp, <<>>) ELSE Good))
                [] s.t = "int" -> CheckNum(IntNum(v.t), s, IntNum, path, v.sp)
                [] s.t = "float" -> CheckNum(FloatNum(v.t), s, FloatNum, path, v.sp)
                [] s.t = "bool" -> IF v.t \in {W_true, W_false} THEN Good ELSE Bad("InvalidValue", path, v.sp, <<>>)
                [] s.t = "literal" -> IF v.t = s.x THEN Good ELSE Bad("InvalidValue", path, v.sp, <<>>))
    [] s.t = "object" ->
         IF v.k # "obj" THEN Bad("ExpectedObject", path, v.sp, <<>>)
         ELSE LET fs == Inline(types, s.f, {}, <<>>) IN
              IF ~fs.ok THEN Bad("SchemaError", path, v.sp, <<>>)
              ELSE LET pats == SortPats({fs.f[j] : j \in {i \in 1..Len(fs.f) : fs.f[i][1][1] # "name"}})
                       seen == {v.e[j][1].t : j \in {i \in 1..Len(v.e) : IsText(v.e[i][1])}}
                   IN Both(ChkEntries(types, fs.f, v.e, path, pats), ChkMissing(types, fs.f, seen, path, v.sp))
    [] s.t = "seq" ->
         IF v.k # "seq" THEN Bad("ExpectedSequence", path, v.sp, <<>>)
         ELSE ChkItems(types, v.i, [j \in 1..Len(v.i) |-> s.s], path, 1)
    [] s.t = "tuple" ->
         IF v.k # "seq" THEN Bad("ExpectedSequence", path, v.sp, <<>>)
         ELSE Both(IF Len(v.i) # Len(s.s) THEN Bad("InvalidValue", path, v.sp, <<>>) ELSE Good,
                   ChkItems(types, v.i, s.s, path, 1))
    [] s.t = "map" ->
         IF v.k # "obj" THEN Bad("ExpectedObject", path, v.sp, <<>>)
         ELSE IF Len(s.s) \notin {1, 2} THEN Bad("SchemaError", path, v.sp, <<>>)
         ELSE ChkMap(types, s.s, v.e, path)
    [] s.t = "union" ->
         IF s.s = <<>> THEN Bad("SchemaError", path, v.sp, <<>>) ELSE ChkUnion(types, v, s.s, path, act)
    [] s.t = "optional" -> IF IsUnitV(v) THEN Good ELSE Chk(types, v, s.s, path, act)
    [] s.t \in {"default", "flatten"} -> Chk(types, v, s.s, path, act)
    [] s.t = "deprecated" ->
         LET r == Chk(types, v, s.s, path, act) IN Res(r.e, Append(r.w, <<path, v.sp>>))
    [] s.t = "oneof" ->
         LET base == Chk(types, v, s.s, path, act) IN
         IF ~Valid(base) \/ s.a = <<>> THEN base
         ELSE IF v.k # "scalar" THEN Both(base, Bad("ExpectedScalar", path, v.sp, <<>>))
         ELSE IF \E j \in 1..Len(s.a) : IsText(s.a[j]) /\ s.a[j].t = v.t THEN base
         ELSE Both(base, Bad("InvalidValue", path, v.sp, <<>>))
    [] s.t = "enum" ->
         IF v.g = <<>>
         THEN LET cand == {j \in 1..Len(s.f) : v.k = "scalar" /\ CanStand(s.f[j][2], v.t)}
                  firstOf(js) == CHOOSE j \in js : \A i \in js : i = j \/ LexLess(s.f[j][1][2], s.f[i][1][2])
                  fit == {j \in cand : Valid(Chk(types, v, s.f[j][2], path, {}))}
              IN IF cand = {} THEN Bad("ExpectedTagged", path, v.sp, <<>>)
                 ELSE Chk(types, v, s.f[firstOf(IF fit = {} THEN cand ELSE fit)][2], path, {})
         ELSE LET w == TagOf(v)
                  js == {j \in 1..Len(s.f) : s.f[j][1] = <<"name", w>>}
              IN IF js = {} THEN Bad("InvalidVariant", path, v.sp, w)
                 ELSE LET vs == s.f[CHOOSE j \in js : TRUE][2] IN
                      IF v.k # "none" THEN Chk(types, [v EXCEPT !.g = <<>>], vs, SubPath(path, w), {})
                      ELSE IF Valid(Chk(types, NoneV(<<>>, <<>>), vs, path, {})) THEN Good
                      ELSE Bad("TypeMismatch", path, v.sp, <<>>)
    [] s.t = "ref" ->
         IF Named(types, s.x) = <<>> THEN Bad("UnknownType", path, v.sp, s.x)
         ELSE IF s.x \in act THEN Bad("SchemaError", path, v.sp, <<>>)   \* defined as itself
         ELSE Chk(types, v, Named(types, s.x)[1], path, act \cup {s.x})

Verdict(types, doc) ==
  IF Root(types) = <<>> THEN Bad("SchemaError", <<>>, doc.sp, <<>>)
  ELSE Chk(types, Joined(doc), Root(types)[1], <<>>, {})

(* equal as bags *)
Times(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Times(a, a[j]) = Times(b, a[j])
=============================================================================
