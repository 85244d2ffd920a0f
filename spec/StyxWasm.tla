------------------------------- MODULE StyxWasm -------------------------------
(***************************************************************************)
(* The browser bindings: a document as JSON, and JSON as a document.        *)
(* JSON values are <<"null">> <<"bool", 0 or 1>> <<"num", text>>            *)
(* <<"str", text>> <<"arr", items>> <<"obj", sequence of <<name, value>>>>. *)
(***************************************************************************)
EXTENDS StyxTyped

W_dtag   == <<36, 116, 97, 103>>                   \* $tag
W_dvalue == <<36, 118, 97, 108, 117, 101>>         \* $value
W_null   == <<110, 117, 108, 108>>
Double   == [t |-> "float", x |-> FALSE]

\* the number that a text is: <<>> (none), <<float>>, or <<"?">> beyond what is compared
NumOf(t) ==
  LET r == ReadFloat(Double, t) IN
  IF r = No THEN <<>>
  ELSE IF r = Free THEN << <<"?">> >>
  ELSE IF r[2][2][1] = "fin" THEN << r[2][2] >> ELSE <<>>

\* JSON's name for a key
JName(k) ==
  IF k.g = <<>> THEN IF k.k = "scalar" THEN k.t ELSE <<64>>
  ELSE <<64>> \o Tail(k.g)
OwnName(k) == k.k = "scalar" => k.g = <<>>
KeyOf(k) == <<k.g, k.k, k.t>>
RECURSIVE Plain(_)               \* each key has a name of its own
Plain(v) ==                      \* (a tag after a tag is C18's finding)
  /\ v.c = <<>>
  /\ \A j \in 1..Len(v.e) : OwnName(v.e[j][1]) /\ Plain(v.e[j][2])
  /\ \A a, b \in 1..Len(v.e) : JName(v.e[a][1]) = JName(v.e[b][1]) => KeyOf(v.e[a][1]) = KeyOf(v.e[b][1])
  /\ \A j \in 1..Len(v.i) : Plain(v.i[j])

\* a number as digits without zeros around them, and the exponent of the last
DigitsOf(t) == SelectSeq(t, Digit)
RECURSIVE DecOf(_)
DecOf(ds) == IF ds = <<>> THEN 0 ELSE 10 * DecOf(SubSeq(ds, 1, Len(ds) - 1)) + ds[Len(ds)] - 48
RECURSIVE NoZeros(_, _)
NoZeros(ds, e) ==
  IF ds = <<>> THEN <<<<>>, 0>>
  ELSE IF ds[1] = 48 THEN NoZeros(Tail(ds), e)
  ELSE IF ds[Len(ds)] = 48 THEN NoZeros(SubSeq(ds, 1, Len(ds) - 1), e + 1)
  ELSE <<ds, e>>
Decimal(t) ==                    \* of the text of a number: <<negative, digits, exponent>>
  LET neg == t[1] = 45
      es == {j \in 1..Len(t) : t[j] \in {69, 101}}
      z == IF es = {} THEN Len(t) + 1 ELSE CHOOSE j \in es : TRUE
      m == SubSeq(t, 1, z - 1)
      x == IF z >= Len(t) THEN <<>> ELSE SubSeq(t, z + 1, Len(t))
      ex == LET d == DigitsOf(x) IN IF Len(d) > 6 THEN 999999 ELSE DecOf(d)
      ps == {j \in 1..Len(m) : m[j] = 46}
      after == IF ps = {} THEN 0 ELSE Len(m) - (CHOOSE j \in ps : TRUE)
      r == NoZeros(DigitsOf(m), (IF x # <<>> /\ x[1] = 45 THEN 0 - ex ELSE ex) - after)
  IN <<neg, r[1], r[2]>>
\* numbers that doubles tell apart, and have
Sized(d) == Len(d[2]) <= 15 /\ Len(d[2]) + d[3] \in (0 - 300)..308
Ordinary(d) == Len(d[2]) + d[3] \in (0 - 300)..308
\* the first nine digits
Lead(d) == DecOf([j \in 1..9 |-> IF j <= Len(d[2]) THEN d[2][j] ELSE 48])
Close(x, y) ==
  LET m == Len(x[2]) + x[3]
      n == Len(y[2]) + y[3]
      a == Lead(x)
      b == Lead(y)
  IN /\ x[1] = y[1] /\ (x[2] = <<>>) = (y[2] = <<>>)
     /\ \/ m = n /\ a - b \in -1..1
        \/ m = n + 1 /\ a = 100000000 /\ b = 999999999
        \/ n = m + 1 /\ b = 100000000 /\ a = 999999999
Huge(d) == Len(d[2]) + d[3] > 308
SameNum(a, b) ==                 \* the texts are numbers
  LET m == NumOf(a)
      n == NumOf(b)
  IN /\ m # <<>> /\ n # <<>>
     /\ IF m[1] # <<"?">> /\ n[1] # <<"?">> THEN m = n
        ELSE LET x == Decimal(a)
                 y == Decimal(b)
             IN IF Sized(x) /\ Sized(y) THEN x = y ELSE (Ordinary(x) /\ Ordinary(y)) => Close(x, y)
\* a scalar: numbers, booleans and null by their text, anything else is text
IsText2(j, t) ==
  LET n == NumOf(t) IN
  CASE n # <<>> -> (j[1] = "num" /\ SameNum(j[2], t)) \/ (n[1] = <<"?">> /\ Huge(Decimal(t)) /\ j = <<"str", t>>)
    [] t = W_true -> j = <<"bool", 1>>
    [] t = W_false -> j = <<"bool", 0>>
    [] t = W_null -> j = <<"null">>
    [] OTHER -> j = <<"str", t>>

\* the keys of entries, each once, in order
RECURSIVE Names(_, _)
Names(es, seen) ==
  IF es = <<>> THEN <<>>
  ELSE LET nm == JName(es[1][1]) IN
       IF nm \in seen THEN Names(Tail(es), seen) ELSE <<nm>> \o Names(Tail(es), seen \cup {nm})

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE IsJson(_, _)            \* j is the document value v
RECURSIVE IsObjJ(_, _)
IsPay(j, v) ==
  CASE v.k = "scalar" -> IsText2(j, v.t)
    [] v.k = "seq" -> j[1] = "arr" /\ Len(j[2]) = Len(v.i) /\ \A q \in 1..Len(v.i) : IsJson(j[2][q], v.i[q])
    [] v.k = "obj" -> IsObjJ(j, v.e)
\* entries with one key are the parts of one object
IsObjJ(j, es) ==
  /\ j[1] = "obj"
  /\ [q \in 1..Len(j[2]) |-> j[2][q][1]] = Names(es, {})
  /\ \A q \in 1..Len(j[2]) :
       LET parts == SelectSeq(es, LAMBDA e : JName(e[1]) = j[2][q][1]) IN
       IF Len(parts) = 1 THEN IsJson(j[2][q][2], parts[1][2])
       ELSE IF \E p \in 1..Len(parts) : parts[p][2].k # "obj" THEN TRUE
       ELSE IsObjJ(j[2][q][2], Flat([p \in 1..Len(parts) |-> parts[p][2].e]))
IsJson(j, v) ==
  IF v.g # <<>>
  THEN /\ j[1] = "obj"
       /\ Len(j[2]) = (IF v.k = "none" THEN 1 ELSE 2)
       /\ j[2][1] = <<W_dtag, <<"str", Tail(v.g)>>>>
       /\ v.k # "none" => j[2][2][1] = W_dvalue /\ IsPay(j[2][2][2], v)
  ELSE IF v.k = "none" THEN j = <<"null">> ELSE IsPay(j, v)

---------------------------------------------------------------------------
\* JSON that stands for a tag: its name, and at most a value that has no tag itself
TagName(t) == t # <<>> /\ TagStartChar(t[1]) /\ \A q \in 1..Len(t) : TagChar(t[q])
HasName(j, name) == \E q \in 1..Len(j[2]) : j[2][q][1] = name
Val(j, name) == j[2][CHOOSE q \in 1..Len(j[2]) : j[2][q][1] = name][2]
RECURSIVE StandsForTag(_)
StandsForTag(j) ==
  /\ j[1] = "obj"
  /\ HasName(j, W_dtag) /\ Val(j, W_dtag)[1] = "str" /\ TagName(Val(j, W_dtag)[2])
  /\ Len(j[2]) = (IF HasName(j, W_dvalue) THEN 2 ELSE 1)
  /\ HasName(j, W_dvalue) => ~StandsForTag(Val(j, W_dvalue))

\* loose: a scalar behind a tag may be written in parentheses (a finding)
RECURSIVE Holds2(_, _, _)         \* the document value v holds the JSON j
HoldsPay(v, j, loose) ==
  CASE j[1] = "null" -> v.k = "none"
    [] j[1] = "bool" -> v.k = "scalar" /\ v.t = (IF j[2] = 1 THEN W_true ELSE W_false)
    [] j[1] = "str" -> v.k = "scalar" /\ v.t = j[2]
    [] j[1] = "num" -> v.k = "scalar" /\ SameNum(v.t, j[2])
    [] j[1] = "arr" -> v.k = "seq" /\ Len(v.i) = Len(j[2]) /\ \A q \in 1..Len(v.i) : Holds2(v.i[q], j[2][q], loose)
    [] j[1] = "obj" -> /\ v.k = "obj" /\ Len(v.e) = Len(j[2])
                       /\ \A q \in 1..Len(v.e) : /\ IsText(v.e[q][1]) /\ v.e[q][1].t = j[2][q][1] /\ v.e[q][3] = <<>>
                                                 /\ Holds2(v.e[q][2], j[2][q][2], loose)
Holds2(v, j, loose) ==
  IF StandsForTag(j)
  THEN /\ v.g # <<>> /\ Tail(v.g) = Val(j, W_dtag)[2]
       /\ IF HasName(j, W_dvalue)
          THEN HoldsPay(v, Val(j, W_dvalue), loose) \/ (loose /\ Val(j, W_dvalue)[1] \in {"str", "num", "bool"} /\
                 v.k = "seq" /\ Len(v.i) = 1 /\ Holds2(v.i[1], Val(j, W_dvalue), loose))
          ELSE v.k = "none"
  ELSE v.g = <<>> /\ HoldsPay(v, j, loose)
=============================================================================
