------------------------------ MODULE StyxShape -------------------------------
(***************************************************************************)
(* The schema of a type.  Types are described as in StyxTyped; an array is a *)
(* tuple with flag x, an untagged enum has t = "anyof", t = "free" may be     *)
(* anything, and d lists the documentation of fields <<name, lines>>.                                   *)
(* Fit(T, v, FALSE): what the schema of T says of the value v.                *)
(* Fit(T, v, TRUE): whether v is a value of T without doubt, with all that    *)
(* schemas cannot express (ranges, single characters, lengths of arrays).     *)
(* 0: no, 2: yes, 1: nothing is promised.                                     *)
(***************************************************************************)
EXTENDS StyxTyped

Least(xs) == IF \E j \in 1..Len(xs) : xs[j] = 0 THEN 0 ELSE IF \E j \in 1..Len(xs) : xs[j] = 1 THEN 1 ELSE 2
Most(xs) == IF \E j \in 1..Len(xs) : xs[j] = 2 THEN 2 ELSE IF \E j \in 1..Len(xs) : xs[j] = 1 THEN 1 ELSE 0
If(c) == IF c THEN 2 ELSE 0
Said(r) == IF r = No THEN 0 ELSE IF r = Free THEN 1 ELSE 2

RECURSIVE Fit(_, _, _, _)
(* fields of a record, its own and those of flattened ones; and the value type
   of what is left, if there is one *)
FitEntry(defs, T, e, strict) ==
  LET js == {j \in 1..Len(T.f) : IsText(e[1]) /\ T.f[j][1] = e[1].t} IN
  IF js # {} THEN Fit(defs, T.f[CHOOSE j \in js : TRUE][3], e[2], strict)
  ELSE IF T.s = <<>> \/ ~IsText(e[1]) THEN 0
  ELSE Fit(defs, T.s[1].s[1], e[2], strict)

RECURSIVE Shape(_, _, _, _)
(* a tag where none belongs goes unnoticed by schemas *)
Fit(defs, T, v, strict) ==
  IF v.g # <<>> /\ v.k # "none" /\ T.t \in {"str", "char", "bool", "int", "float", "seq", "set", "tup", "map", "rec"}
  THEN IF strict THEN 0 ELSE IF Shape(defs, T, v, strict) = 0 THEN 0 ELSE 1
  ELSE Shape(defs, T, v, strict)

Shape(defs, T, v, strict) ==
  LET text == v.k = "scalar"
      seq == v.k = "seq"
      obj == v.k = "obj"
      vague(r) == IF strict \/ r # 0 THEN r ELSE 1      \* schemas need not tell
  IN
  CASE T.t = "ref" -> Fit(defs, Named2(defs, T.lo), v, strict)
    [] T.t = "free" -> 1
    [] T.t = "raw" -> IF strict THEN 1 ELSE 2
    [] T.t = "str" -> If(text)
    [] T.t = "char" -> IF ~text THEN 0 ELSE vague(If(Len(v.t) = 1))
    [] T.t = "bool" -> If(text /\ v.t \in {W_true, W_false})
    [] T.t = "int" -> IF ~text \/ ~IntNum(v.t).ok THEN 0 ELSE vague(Said(ReadInt(T, v.t)))
    [] T.t = "float" -> If(text /\ FloatNum(v.t).ok)
    [] T.t = "doc" -> Fit(defs, T.s[1], v, strict)
    [] T.t = "opt" -> IF IsUnitV(v) THEN IF strict THEN 1 ELSE 2 ELSE Fit(defs, T.s[1], v, strict)
    [] T.t \in {"seq", "set"} -> IF ~seq THEN 0 ELSE Least([j \in 1..Len(v.i) |-> Fit(defs, T.s[1], v.i[j], strict)])
    [] T.t = "tup" ->
         IF ~seq THEN 0
         ELSE IF T.x /\ ~strict                              \* an array: items are alike
         THEN Least([j \in 1..Len(v.i) |-> Fit(defs, T.s[1], v.i[j], strict)] \o <<IF Len(v.i) = Len(T.s) THEN 2 ELSE 1>>)
         ELSE IF Len(v.i) # Len(T.s) THEN 0
         ELSE Least([j \in 1..Len(v.i) |-> Fit(defs, T.s[j], v.i[j], strict)])
    [] T.t = "map" ->
         IF ~obj THEN 0
         ELSE Least([j \in 1..Len(v.e) |->
                IF ~IsText(v.e[j][1]) THEN 0
                ELSE Least(<<IF T.lo = <<>> THEN 2 ELSE IF ~IntNum(v.e[j][1].t).ok THEN 0 ELSE vague(Said(ReadInt(T, v.e[j][1].t))),
                             Fit(defs, T.s[1], v.e[j][2], strict)>>)])
    [] T.t = "rec" ->
         IF ~obj THEN 0
         ELSE IF \E j \in 1..Len(T.f) : T.f[j][2] = "req" /\ FieldAt(v.e, T.f[j][1]) = {} THEN 0
         ELSE Least([j \in 1..Len(v.e) |-> FitEntry(defs, T, v.e[j], strict)])
    [] T.t = "enum" ->
         IF v.g = <<>> THEN IF v.k = "scalar" THEN 1 ELSE 0        \* text may stand for a variant
         ELSE LET js == {j \in 1..Len(T.f) : T.f[j][1] = TagOf(v)}
                  F == T.f[CHOOSE j \in js : TRUE]
                  w == [v EXCEPT !.g = <<>>]
              IN IF js = {} THEN 0
                 ELSE IF v.c # <<>> THEN 1                   \* the tree does not keep tags of tags
                 ELSE IF F[2] = "unit" THEN If(IsUnitV(w))
                 ELSE Fit(defs, F[3], w, strict)
    [] T.t = "anyof" -> Most([j \in 1..Len(T.s) |-> Fit(defs, T.s[j], v, strict)])

----------------------------------------------------------------------------
(* What a schema says besides: defaults, documentation.                      *)

Entry(v, name) == v.e[CHOOSE j \in 1..Len(v.e) : PlainKey(v.e[j][1]) /\ v.e[j][1].t = name]
HasEntry(v, name) == \E j \in 1..Len(v.e) : PlainKey(v.e[j][1]) /\ v.e[j][1].t = name
RECURSIVE Follow(_, _)            \* the definition behind a name
Follow(top, v) ==
  IF v.k = "none" /\ v.g # <<>> /\ HasEntry(top, TagOf(v)) THEN Follow(top, Entry(top, TagOf(v))[2]) ELSE v
Tagged(v, w) == v.g # <<>> /\ TagOf(v) = w

(* top: the schema block; v: the schema of T.  The names of what differs. *)
RECURSIVE Differs(_, _, _, _, _, _)
Differs(defs, T, top, u, seen, path) ==
  LET v == Follow(top, u)
      sub(S, w, name) == Differs(defs, S, top, w, seen, name) IN
  CASE T.t = "ref" -> IF T.lo \in seen THEN <<>>
                      ELSE Differs(defs, Named2(defs, T.lo), top, u, seen \cup {T.lo}, path)
    [] T.t = "doc" -> Differs(defs, T.s[1], top, u, seen, path)
    [] T.t = "opt" -> IF Tagged(v, W_optional) /\ Len(v.i) = 1 THEN sub(T.s[1], v.i[1], path) ELSE <<path>>
    [] T.t \in {"seq", "set"} -> IF Tagged(v, W_seq) /\ Len(v.i) = 1 THEN sub(T.s[1], v.i[1], path) ELSE <<path>>
    [] T.t = "map" -> IF Tagged(v, W_map) /\ v.i # <<>> THEN sub(T.s[1], v.i[Len(v.i)], path) ELSE <<path>>
    [] T.t = "rec" ->
         IF ~Tagged(v, W_object) THEN <<path>>
         ELSE LET field(F) ==
                    IF ~HasEntry(v, F[1]) THEN <<F[1]>>
                    ELSE LET e == Entry(v, F[1])
                             docs == {j \in 1..Len(T.d) : T.d[j][1] = F[1]}
                             told == docs = {} \/ DocLines(e[3]) = T.d[CHOOSE j \in docs : TRUE][2]
                         IN (IF told THEN <<>> ELSE <<F[1]>>) \o
                            (IF F[2] # "def" THEN sub(F[3], e[2], F[1])
                             ELSE IF ~Tagged(e[2], W_default) \/ Len(e[2].i) # 2 THEN <<F[1]>>
                             ELSE LET d == Refs(defs, F[3], <<e[2], e[2].i[1], <<>>>>, <<>>)
                                  IN (IF d = Ok(F[4]) \/ (d = Free /\ Fit(defs, F[3], e[2].i[1], FALSE) # 0) THEN <<>> ELSE <<F[1]>>) \o sub(F[3], e[2].i[2], F[1]))
                  RECURSIVE go(_)
                  go(j) == IF j > Len(T.f) THEN <<>> ELSE field(T.f[j]) \o go(j + 1)
              IN go(1)
    [] OTHER -> <<>>
=============================================================================
