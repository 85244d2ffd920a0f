------------------------------- MODULE StyxLex -------------------------------
(***************************************************************************)
(* Lexical layer of Styx as a function of a sequence of Unicode code       *)
(* points.  TokAt/TokStep give the lossless tokens, LexAt the lexemes      *)
(* (whitespace dropped, escapes processed, heredocs assembled, adjacency   *)
(* resolved).  Positions inside are 1-based; spans handed out are 0-based  *)
(* half-open character ranges.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

----------------------------------------------------------------------------
(* Character classes *)

IsWs(c) == \/ c \in 9..13 \/ c = 32 \/ c = 133 \/ c = 160 \/ c = 5760
           \/ c \in 8192..8202 \/ c = 8232 \/ c = 8233 \/ c = 8239
           \/ c = 8287 \/ c = 12288
Upper(c) == c \in 65..90
Lower(c) == c \in 97..122
Digit(c) == c \in 48..57
Hex(c)   == Digit(c) \/ c \in 65..70 \/ c \in 97..102
BareChar(c)  == c \notin {123, 125, 40, 41, 44, 34, 62} /\ ~IsWs(c)
BareStart(c) == BareChar(c) /\ c # 61 /\ c # 64 /\ c # 47
TagStartChar(c) == Upper(c) \/ Lower(c) \/ c = 95
TagChar(c) == TagStartChar(c) \/ Digit(c) \/ c = 45

InClass(cl, c) ==
  CASE cl = "ws"    -> c = 32 \/ c = 9
    [] cl = "bare"  -> BareChar(c)
    [] cl = "line"  -> c # 10 /\ c # 13
    [] cl = "delim" -> Upper(c) \/ Digit(c) \/ c = 95
    [] cl = "lang"  -> Lower(c) \/ Digit(c) \/ c = 95 \/ c = 46 \/ c = 45
    [] cl = "hash"  -> c = 35
    [] cl = "hex"   -> Hex(c)
    [] cl = "nothex"-> c # 125

At(cs, p) == IF p >= 1 /\ p <= Len(cs) THEN cs[p] ELSE -1

(* First position >= p whose character is not in the class. *)
RECURSIVE Scan(_, _, _)
Scan(cs, p, cl) == IF p <= Len(cs) /\ InClass(cl, cs[p]) THEN Scan(cs, p + 1, cl) ELSE p

Text(cs, p, q) == SubSeq(cs, p, q - 1)      \* characters p .. q-1

----------------------------------------------------------------------------
(* Tags: @seg(/@seg)*, a segment stops before r# *)

RECURSIVE TagSeg(_, _)
TagSeg(cs, p) ==
  IF p <= Len(cs) /\ TagChar(cs[p]) /\ ~(cs[p] = 114 /\ At(cs, p + 1) = 35)
  THEN TagSeg(cs, p + 1) ELSE p

RECURSIVE TagChain(_, _)                    \* p is just after a segment
TagChain(cs, p) ==
  IF At(cs, p) = 47 /\ At(cs, p + 1) = 64 /\ p + 2 <= Len(cs) /\ TagStartChar(cs[p + 2])
  THEN TagChain(cs, TagSeg(cs, p + 3)) ELSE p

----------------------------------------------------------------------------
(* Quoted and raw strings: end position, or 0 when unterminated *)

RECURSIVE QuoteEnd(_, _)
QuoteEnd(cs, p) ==
  IF p > Len(cs) THEN 0
  ELSE IF cs[p] = 34 THEN p + 1
  ELSE IF cs[p] = 92 THEN QuoteEnd(cs, IF p + 1 <= Len(cs) THEN p + 2 ELSE p + 1)
  ELSE QuoteEnd(cs, p + 1)

RECURSIVE RawEnd(_, _, _)
RawEnd(cs, p, h) ==
  IF p > Len(cs) THEN 0
  ELSE IF cs[p] = 34 /\ Scan(cs, p + 1, "hash") >= p + 1 + h THEN p + 1 + h
  ELSE RawEnd(cs, p + 1, h)

----------------------------------------------------------------------------
(* Heredocs *)

RECURSIVE LineEnd(_, _)                     \* position after the line terminator
LineEnd(cs, p) ==
  IF p > Len(cs) THEN p
  ELSE IF cs[p] = 10 THEN p + 1
  ELSE IF cs[p] = 13 /\ At(cs, p + 1) = 10 THEN p + 2
  ELSE LineEnd(cs, p + 1)

(* Length of the closing indent if the delimiter line starts at p, else -1 *)
HdClose(cs, p, d) ==
  LET q == Scan(cs, p, "ws")
      r == q + Len(d)
  IN IF r - 1 <= Len(cs) /\ Text(cs, q, r) = d
        /\ (r > Len(cs) \/ cs[r] = 10 \/ (cs[r] = 13 /\ At(cs, r + 1) = 10))
     THEN q - p ELSE -1

(* End of the content starting at p, or 0 when never closed *)
RECURSIVE HdBody(_, _, _)
HdBody(cs, p, d) ==
  IF p > Len(cs) THEN 0
  ELSE LET q == LineEnd(cs, p) IN
       IF HdClose(cs, q, d) >= 0 THEN q ELSE HdBody(cs, q, d)

(* The opening: [ok, e, d]; e is the end of the opening token *)
HdOpen(cs, p) ==
  LET de == Scan(cs, p + 3, "delim")
      d  == Text(cs, p + 2, de)
      l1 == IF At(cs, de) = 44
            THEN IF de + 1 <= Len(cs) /\ Lower(cs[de + 1]) THEN Scan(cs, de + 2, "lang") ELSE de + 1
            ELSE de
      l2 == IF At(cs, l1) = 13 THEN l1 + 1 ELSE l1
      l3 == IF At(cs, l2) = 10 THEN l2 + 1 ELSE l2
  IN IF Len(d) > 16 THEN [ok |-> FALSE, e |-> de, d |-> d]
     ELSE [ok |-> TRUE, e |-> l3, d |-> d]

RECURSIVE Dedent(_, _, _, _)                \* k: blanks still to drop on this line
Dedent(t, i, n, k) ==
  IF i > Len(t) THEN <<>>
  ELSE IF t[i] = 10 THEN <<10>> \o Dedent(t, i + 1, n, n)
  ELSE IF k > 0 /\ (t[i] = 32 \/ t[i] = 9) THEN Dedent(t, i + 1, n, k - 1)
  ELSE <<t[i]>> \o Dedent(t, i + 1, n, 0)

----------------------------------------------------------------------------
(* Tokens outside heredoc content: [k, s, e] with 1-based s, exclusive e *)

Tok(k, s, e) == [k |-> k, s |-> s, e |-> e]

TokAt(cs, p) ==
  IF p > Len(cs) THEN Tok("Eof", p, p) ELSE
  LET c == cs[p]  c1 == At(cs, p + 1)  c2 == At(cs, p + 2) IN
  CASE c = 123 -> Tok("LBrace", p, p + 1)
    [] c = 125 -> Tok("RBrace", p, p + 1)
    [] c = 40  -> Tok("LParen", p, p + 1)
    [] c = 41  -> Tok("RParen", p, p + 1)
    [] c = 44  -> Tok("Comma", p, p + 1)
    [] c = 62  -> Tok("Gt", p, p + 1)
    [] c = 64  -> IF c1 # -1 /\ TagStartChar(c1)
                  THEN Tok("Tag", p, TagChain(cs, TagSeg(cs, p + 2)))
                  ELSE Tok("At", p, p + 1)
    [] c = 34  -> LET q == QuoteEnd(cs, p + 1) IN
                  IF q = 0 THEN Tok("Error", p, Len(cs) + 1) ELSE Tok("QuotedScalar", p, q)
    [] c = 47 /\ c1 = 47 /\ c2 = 47 -> Tok("DocComment", p, Scan(cs, p + 3, "line"))
    [] c = 47 /\ c1 = 47 /\ c2 # 47 -> Tok("LineComment", p, Scan(cs, p + 2, "line"))
    [] c = 47 /\ c1 # 47 -> Tok("BareScalar", p, Scan(cs, p, "bare"))
    [] c = 60 /\ c1 = 60 /\ Upper(c2) ->
         LET h == HdOpen(cs, p) IN
         IF h.ok THEN Tok("HeredocStart", p, h.e) ELSE Tok("Error", p, h.e)
    [] c = 60 /\ c1 = 60 /\ ~Upper(c2) -> Tok("Error", p, p + 2)
    [] c = 114 /\ (c1 = 35 \/ c1 = 34) ->
         LET h == Scan(cs, p + 1, "hash")
             n == h - (p + 1)
         IN IF At(cs, h) # 34 THEN Tok("Error", p, h)
            ELSE LET q == RawEnd(cs, h + 1, n) IN
                 IF q = 0 THEN Tok("Error", p, Len(cs) + 1) ELSE Tok("RawScalar", p, q)
    [] c = 32 \/ c = 9 -> Tok("Whitespace", p, Scan(cs, p, "ws"))
    [] c = 10 -> Tok("Newline", p, p + 1)
    [] c = 13 /\ c1 = 10 -> Tok("Newline", p, p + 2)
    [] OTHER -> IF BareStart(c) THEN Tok("BareScalar", p, Scan(cs, p, "bare"))
                ELSE Tok("Error", p, p + 1)

(* Tokens of the heredoc content that follows an opening ending at p *)
HdTokens(cs, p, d) ==
  IF HdClose(cs, p, d) >= 0
  THEN <<Tok("HeredocEnd", p, p + HdClose(cs, p, d) + Len(d))>>
  ELSE LET q == HdBody(cs, p, d) IN
       IF q = 0 THEN <<Tok("Error", p, Len(cs) + 1)>>
       ELSE <<Tok("HeredocContent", p, q),
              Tok("HeredocEnd", q, q + HdClose(cs, q, d) + Len(d))>>

RECURSIVE TokensFrom(_, _, _)
TokensFrom(cs, p, acc) ==
  LET t == TokAt(cs, p) IN
  IF t.k = "Eof" THEN acc
  ELSE IF t.k = "HeredocStart"
  THEN LET h == HdTokens(cs, t.e, HdOpen(cs, p).d)
       IN TokensFrom(cs, h[Len(h)].e, acc \o <<t>> \o h)
  ELSE TokensFrom(cs, t.e, Append(acc, t))

Tokens(cs) == TokensFrom(cs, 1, <<>>)

----------------------------------------------------------------------------
(* Escapes of quoted scalars *)

HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87

RECURSIVE HexNum(_, _, _)                   \* saturating at 2^24
HexNum(t, i, v) == IF i > Len(t) THEN v
                   ELSE IF v > 1114111 THEN 16777216
                   ELSE HexNum(t, i + 1, v * 16 + HexVal(t[i]))
RECURSIVE Zeros(_, _)
Zeros(t, i) == IF i <= Len(t) /\ t[i] = 48 THEN Zeros(t, i + 1) ELSE i - 1
AllHex(t) == \A i \in 1..Len(t) : Hex(t[i])
IsCodePoint(v) == v <= 1114111 /\ ~(v \in 55296..57343)
GoodHex(t) == Len(t) > 0 /\ AllHex(t) /\ IsCodePoint(HexNum(t, 1, 0))

Simple(c) == CASE c = 92 -> 92 [] c = 34 -> 34 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> -1

(* [ok, esc, t]: esc tells whether the failure is reported as a bad escape *)
RECURSIVE Unescape(_, _, _)
Unescape(t, i, acc) ==
  IF i > Len(t) THEN [ok |-> TRUE, esc |-> FALSE, t |-> acc]
  ELSE IF t[i] # 92 THEN Unescape(t, i + 1, Append(acc, t[i]))
  ELSE LET c == At(t, i + 1) IN
    IF c = -1 THEN [ok |-> FALSE, esc |-> FALSE, t |-> <<>>]
    ELSE IF Simple(c) # -1 THEN Unescape(t, i + 2, Append(acc, Simple(c)))
    ELSE IF c # 117 THEN [ok |-> FALSE, esc |-> TRUE, t |-> <<>>]
    ELSE IF At(t, i + 2) = 123
    THEN LET q == Scan(t, i + 3, "hex")
             h == Text(t, i + 3, q)
         IN IF At(t, q) # 125 \/ Len(h) = 0 \/ Len(h) - Zeros(h, 1) > 8
            THEN [ok |-> FALSE, esc |-> TRUE, t |-> <<>>]
            ELSE IF ~IsCodePoint(HexNum(h, 1, 0)) THEN [ok |-> FALSE, esc |-> FALSE, t |-> <<>>]
            ELSE Unescape(t, q + 1, Append(acc, HexNum(h, 1, 0)))
    ELSE LET h == Text(t, i + 2, i + 6) IN
         IF Len(t) < i + 5 \/ ~AllHex(h) THEN [ok |-> FALSE, esc |-> TRUE, t |-> <<>>]
         ELSE IF ~IsCodePoint(HexNum(h, 1, 0)) THEN [ok |-> FALSE, esc |-> FALSE, t |-> <<>>]
         ELSE Unescape(t, i + 6, Append(acc, HexNum(h, 1, 0)))

(* The bad escapes of a text: sequence of [s, e] (0-based, relative) *)
RECURSIVE HexRun(_, _, _)
HexRun(t, p, n) == IF n > 0 /\ p <= Len(t) /\ Hex(t[p]) THEN HexRun(t, p + 1, n - 1) ELSE p

RECURSIVE BadEscapes(_, _, _)
BadEscapes(t, i, acc) ==
  IF i > Len(t) THEN acc
  ELSE IF t[i] # 92 THEN BadEscapes(t, i + 1, acc)
  ELSE LET c == At(t, i + 1) IN
    IF c = -1 THEN Append(acc, <<i - 1, i>>)
    ELSE IF Simple(c) # -1 THEN BadEscapes(t, i + 2, acc)
    ELSE IF c # 117 THEN BadEscapes(t, i + 2, Append(acc, <<i - 1, i + 1>>))
    ELSE IF At(t, i + 2) = 123
    THEN LET q == Scan(t, i + 3, "nothex")
             e == IF q > Len(t) THEN Len(t) + 1 ELSE q + 1
             h == Text(t, i + 3, q)
         IN IF q > Len(t) \/ ~GoodHex(h)
            THEN BadEscapes(t, e, Append(acc, <<i - 1, IF e - i > 12 THEN i + 11 ELSE e - 1>>))
            ELSE BadEscapes(t, e, acc)
    ELSE IF At(t, i + 2) # -1 /\ Hex(t[i + 2])
    THEN LET q == HexRun(t, i + 2, 4) IN
         IF q # i + 6 THEN BadEscapes(t, q, Append(acc, <<i - 1, q - 1>>)) ELSE BadEscapes(t, q, acc)
    ELSE BadEscapes(t, i + 2, Append(acc, <<i - 1, i + 1>>))

(* What is kept of a quoted text with bad escapes *)
RECURSIVE UnescapeLoose(_, _, _)
UnescapeLoose(t, i, acc) ==
  IF i > Len(t) THEN acc
  ELSE IF t[i] # 92 THEN UnescapeLoose(t, i + 1, Append(acc, t[i]))
  ELSE LET c == At(t, i + 1) IN
    IF c = -1 THEN Append(acc, 92)
    ELSE IF Simple(c) # -1 THEN UnescapeLoose(t, i + 2, Append(acc, Simple(c)))
    ELSE IF c # 117 THEN UnescapeLoose(t, i + 2, acc \o <<92, c>>)
    ELSE IF At(t, i + 2) = 123
    THEN LET q == Scan(t, i + 3, "nothex")
             h == Text(t, i + 3, q)
         IN UnescapeLoose(t, q + 1, IF GoodHex(h) THEN Append(acc, HexNum(h, 1, 0)) ELSE acc)
    ELSE IF At(t, i + 2) # -1 /\ Hex(t[i + 2])
    THEN LET q == HexRun(t, i + 2, 4)
             h == Text(t, i + 2, q)
         IN UnescapeLoose(t, q, IF Len(h) = 4 /\ GoodHex(h) THEN Append(acc, HexNum(h, 1, 0)) ELSE acc)
    ELSE UnescapeLoose(t, i + 2, acc)

----------------------------------------------------------------------------
(* Lexemes: [k, n, s, e, t, p] with 0-based s, e.                          *)
(*   k = Scalar (n = kind, t = value), Tag (t = name, p = payload follows),*)
(*   AttrKey (t = key, key span s .. e-1), Comment/DocComment (t = text),  *)
(*   Error (n = reason), Unit { } ( ) Comma Newline Eof.                   *)

Lx(k, n, s, e, t, p) == [k |-> k, n |-> n, s |-> s - 1, e |-> e - 1, t |-> t, p |-> p]

HasChain(t) == \E i \in 1..(Len(t) - 1) : t[i] = 47 /\ t[i + 1] = 64
PayloadTok == {"LBrace", "LParen", "QuotedScalar", "RawScalar", "HeredocStart", "At", "Tag"}

(* Result: [x |-> lexeme, p |-> position after it] *)
LexAt(cs, p0) ==
  LET p == Scan(cs, p0, "ws")
      t == TokAt(cs, p)
      one(k) == [x |-> Lx(k, "", t.s, t.e, <<>>, FALSE), p |-> t.e]
      err(n, s, e, q) == [x |-> Lx("Error", n, s, e, <<>>, FALSE), p |-> q]
  IN CASE t.k = "Eof" -> [x |-> [k |-> "Eof", n |-> "", s |-> 0, e |-> 0, t |-> <<>>, p |-> FALSE], p |-> p]
     [] t.k = "LBrace" -> one("{")
     [] t.k = "RBrace" -> one("}")
     [] t.k = "LParen" -> one("(")
     [] t.k = "RParen" -> one(")")
     [] t.k = "Comma" -> one("Comma")
     [] t.k = "Newline" -> one("Newline")
     [] t.k = "Gt" -> err("gt", t.s, t.e, t.e)
     [] t.k = "LineComment" -> [x |-> Lx("Comment", "", t.s, t.e, Text(cs, t.s, t.e), FALSE), p |-> t.e]
     [] t.k = "DocComment"  -> [x |-> Lx("DocComment", "", t.s, t.e, Text(cs, t.s, t.e), FALSE), p |-> t.e]
     [] t.k = "At" ->
          LET n == TokAt(cs, t.e) IN
          IF n.k = "BareScalar" THEN err("tagname", t.s, n.e, n.e) ELSE one("Unit")
     [] t.k = "Tag" ->
          LET n == TokAt(cs, t.e)
              name == Text(cs, t.s + 1, t.e)
          IN IF n.k = "BareScalar" THEN err("tagname", t.s, n.e, n.e)
             ELSE [x |-> Lx("Tag", "", t.s, t.e, name, HasChain(name) \/ n.k \in PayloadTok), p |-> t.e]
     [] t.k = "BareScalar" ->
          IF At(cs, t.e) = 62
          THEN LET v == TokAt(cs, t.e + 1) IN
               IF v.k \in {"Newline", "Eof"} THEN err("novalue", t.e, t.e + 1, t.e + 1)
               ELSE IF v.k = "Whitespace" THEN err("wsgt", t.e, t.e + 1, t.e + 1)
               ELSE [x |-> Lx("AttrKey", "", t.s, t.e + 1, Text(cs, t.s, t.e), FALSE), p |-> t.e + 1]
          ELSE [x |-> Lx("Scalar", "Bare", t.s, t.e, Text(cs, t.s, t.e), FALSE), p |-> t.e]
     [] t.k = "QuotedScalar" ->
          LET u == Unescape(Text(cs, t.s + 1, t.e - 1), 1, <<>>) IN
          IF u.ok THEN [x |-> Lx("Scalar", "Quoted", t.s, t.e, u.t, FALSE), p |-> t.e]
          ELSE err(IF u.esc THEN "escape" ELSE "codepoint", t.s, t.e, t.e)
     [] t.k = "RawScalar" ->
          LET h == Scan(cs, t.s + 1, "hash")
              n == h - (t.s + 1)
          IN [x |-> Lx("Scalar", "Raw", t.s, t.e, Text(cs, h + 1, t.e - 1 - n), FALSE), p |-> t.e]
     [] t.k = "HeredocStart" ->
          LET d == HdOpen(cs, p).d
              h == HdTokens(cs, t.e, d)
              z == h[Len(h)]
          IN IF z.k = "Error" THEN err("heredoc", z.s, z.e, z.e)
             ELSE LET body == IF Len(h) = 2 THEN Text(cs, h[1].s, h[1].e) ELSE <<>>
                      ind  == IF Len(h) = 2 THEN HdClose(cs, z.s, d) ELSE 0
                  IN [x |-> Lx("Scalar", "Heredoc", t.s, z.e,
                               IF ind > 0 THEN Dedent(body, 1, ind, ind) ELSE body, FALSE),
                      p |-> z.e]
     [] t.k = "Error" -> err("token", t.s, t.e, t.e)

RECURSIVE LexFrom(_, _, _)
LexFrom(cs, p, acc) ==
  LET r == LexAt(cs, p) IN
  IF r.x.k = "Eof" THEN Append(acc, r.x) ELSE LexFrom(cs, r.p, Append(acc, r.x))

Lex(cs) == LexFrom(cs, 1, <<>>)
=============================================================================
