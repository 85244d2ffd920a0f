-------------------------------- MODULE StyxCst --------------------------------
(***************************************************************************)
(* The concrete syntax tree: every token of the document hangs in it, in   *)
(* order.  The tree is described by its preorder walk: <<kind, s, e>> on   *)
(* entering a node or token and <<"/", 0, 0>> on leaving a node.  Errors   *)
(* are <<offset, what, token kind>>.                                       *)
(* Every Parse operator takes the tokens T (ending with Eof), an index, and *)
(* gives [i, o, r]: next index, walk, errors.                               *)
(***************************************************************************)
EXTENDS StyxLex

CstName(k) ==
  CASE k = "LBrace" -> "L_BRACE" [] k = "RBrace" -> "R_BRACE" [] k = "LParen" -> "L_PAREN" [] k = "RParen" -> "R_PAREN"
    [] k = "Comma" -> "COMMA" [] k = "Gt" -> "GT" [] k = "At" -> "AT" [] k = "Tag" -> "TAG_TOKEN"
    [] k = "BareScalar" -> "BARE_SCALAR" [] k = "QuotedScalar" -> "QUOTED_SCALAR" [] k = "RawScalar" -> "RAW_SCALAR"
    [] k = "HeredocStart" -> "HEREDOC_START" [] k = "HeredocContent" -> "HEREDOC_CONTENT" [] k = "HeredocEnd" -> "HEREDOC_END"
    [] k = "LineComment" -> "LINE_COMMENT" [] k = "DocComment" -> "DOC_COMMENT" [] k = "Whitespace" -> "WHITESPACE"
    [] k = "Newline" -> "NEWLINE" [] k = "Eof" -> "EOF" [] k = "Error" -> "ERROR"

\* kinds of the inner nodes
Inner == {"DOCUMENT", "ENTRY", "OBJECT", "SEQUENCE", "SCALAR", "UNIT", "TAG", "TAG_PAYLOAD", "KEY", "VALUE",
          "HEREDOC", "ATTRIBUTES", "ATTRIBUTE"}

K(T, i) == IF i <= Len(T) THEN T[i].k ELSE "Eof"
Off(T, i) == IF i <= Len(T) THEN T[i].s - 1 ELSE T[Len(T)].s - 1      \* where the next token starts
ErrOff(T, i) == IF i <= Len(T) THEN T[i].s - 1 ELSE 0                  \* nothing left to point at

St(i, o, r) == [i |-> i, o |-> o, r |-> r]
Leaf(T, i) == <<CstName(T[i].k), T[i].s - 1, T[i].e - 1>>
Bump(T, x) == IF x.i <= Len(T) THEN St(x.i + 1, Append(x.o, Leaf(T, x.i)), x.r) ELSE x
Err(T, x, what, k) == [x EXCEPT !.r = Append(@, <<ErrOff(T, x.i), what, k>>)]
(* wrap what a parse from index i gave into a node *)
Node(T, kind, i, x) == St(x.i, <<<<kind, Off(T, i), Off(T, x.i)>>>> \o x.o \o <<<<"/", 0, 0>>>>, x.r)
From(i) == St(i, <<>>, <<>>)
Then(x, y) == St(y.i, x.o \o y.o, x.r \o y.r)

RECURSIVE Skip(_, _, _)
Skip(T, x, ks) == IF K(T, x.i) \in ks /\ x.i <= Len(T) THEN Skip(T, Bump(T, x), ks) ELSE x
SkipTrivia(T, x) == Skip(T, x, {"Whitespace", "Newline", "LineComment"})
SkipWs(T, x) == Skip(T, x, {"Whitespace"})

AtEntryEnd(T, i, close) == K(T, i) \in {"Eof", "Newline", "LineComment", "DocComment", "Comma"} \/ K(T, i) = close
AtomStart == {"LBrace", "LParen", "At", "Tag", "BareScalar", "QuotedScalar", "RawScalar", "HeredocStart"}

(* a bare scalar followed, after blanks, by > *)
AtAttr(T, i) == /\ K(T, i) = "BareScalar"
                /\ \/ K(T, i + 1) = "Gt"
                   \/ K(T, i + 1) = "Whitespace" /\ K(T, i + 2) = "Gt"

RECURSIVE PAtom(_, _)
RECURSIVE PEntries(_, _, _)
RECURSIVE PEntry(_, _, _)
RECURSIVE PValues(_, _, _, _)
RECURSIVE PAttrs(_, _, _)
RECURSIVE PElements(_, _)
RECURSIVE PAttrGroup(_, _, _)
RECURSIVE PTagSegs(_, _, _, _, _)

(* the texts of a chain token: sequence of lengths of "@name" *)
RECURSIVE SegLens(_, _, _)
SegLens(t, i, cur) ==
  IF i > Len(t) THEN <<cur>>
  ELSE IF t[i] = 47 /\ At(t, i + 1) = 64 THEN <<cur>> \o SegLens(t, i + 2, 1)
  ELSE SegLens(t, i + 1, cur + 1)

PAtom(T, i) ==
  LET k == K(T, i) IN
  CASE k = "LBrace" ->
         LET a == PEntries(T, Bump(T, From(i)), "RBrace")
             b == SkipTrivia(T, a)
         IN Node(T, "OBJECT", i,
                 IF K(T, b.i) = "RBrace" THEN Bump(T, b) ELSE Err(T, b, "unclosed object", ""))
    [] k = "LParen" -> Node(T, "SEQUENCE", i, PElements(T, Bump(T, From(i))))
    [] k = "At" -> Node(T, "UNIT", i, Bump(T, From(i)))
    [] k = "Tag" -> PTagSegs(T, i, T[i].n, 1, T[i].s - 1)
    [] k \in {"BareScalar", "QuotedScalar", "RawScalar"} -> Node(T, "SCALAR", i, Bump(T, From(i)))
    [] k = "HeredocStart" ->
         LET a == Bump(T, From(i))
             b == IF K(T, a.i) = "HeredocContent" THEN Bump(T, a) ELSE a
         IN Node(T, "HEREDOC", i,
                 IF K(T, b.i) = "HeredocEnd" THEN Bump(T, b) ELSE Err(T, b, "unterminated heredoc", ""))
    [] OTHER -> Bump(T, Err(T, From(i), "unexpected token", k))

(* segments j.. of the chain token i whose "@name" lengths are ls; p: where segment j starts *)
PTagSegs(T, i, ls, j, p) ==
  LET tok == <<"TAG_TOKEN", p, p + ls[j]>>
      pay == IF j < Len(ls)
             THEN LET a == PTagSegs(T, i, ls, j + 1, p + ls[j] + 1)
                  IN [i |-> a.i, r |-> a.r,
                      o |-> <<<<"TAG_PAYLOAD", p + ls[j], Off(T, a.i)>>, <<"SLASH", p + ls[j], p + ls[j] + 1>>>>
                            \o a.o \o <<<<"/", 0, 0>>>>]
             ELSE IF K(T, i + 1) \in AtomStart \ {"BareScalar"}
             THEN Node(T, "TAG_PAYLOAD", i + 1, PAtom(T, i + 1))
             ELSE From(i + 1)
  IN St(pay.i, <<<<"TAG", p, Off(T, pay.i)>>, tok>> \o pay.o \o <<<<"/", 0, 0>>>>, pay.r)

PElements(T, x0) ==
  LET x == SkipTrivia(T, x0) IN
  IF K(T, x.i) = "Eof" THEN Err(T, x, "unclosed sequence", "")
  ELSE IF K(T, x.i) = "RParen" THEN Bump(T, x)
  ELSE LET a == IF AtAttr(T, x.i) THEN PAttrGroup(T, x.i, "RParen") ELSE PAtom(T, x.i)
           e == Node(T, "ENTRY", x.i, Node(T, "KEY", x.i, a))
       IN PElements(T, SkipWs(T, Then(x, e)))

(* one attribute, then the following ones *)
PAttrs(T, x, close) ==
  LET i == x.i
      a == Bump(T, From(i))
      b == IF K(T, a.i) = "Gt" THEN Bump(T, a) ELSE Err(T, a, "expected >", "")
      c == IF K(T, b.i) \in {"Whitespace", "Newline"}
           THEN SkipWs(T, Err(T, b, "whitespace after >", "")) ELSE b
      d == Then(c, PAtom(T, c.i))
      e == SkipWs(T, Then(x, Node(T, "ATTRIBUTE", i, d)))
  IN IF AtEntryEnd(T, e.i, close) \/ ~AtAttr(T, e.i) THEN e ELSE PAttrs(T, e, close)

PAttrGroup(T, i, close) == Node(T, "ATTRIBUTES", i, PAttrs(T, From(i), close))

PValues(T, x, close, count) ==
  IF AtEntryEnd(T, x.i, close) THEN x
  ELSE LET many == close = "RBrace" /\ count > 0 /\ K(T, x.i) \in AtomStart /\ ~AtAttr(T, x.i)
           y == IF many THEN Err(T, x, "too many atoms", "") ELSE x
           v == IF AtAttr(T, x.i) THEN PAttrGroup(T, x.i, close) ELSE PAtom(T, x.i)
       IN PValues(T, SkipWs(T, Then(y, Node(T, "VALUE", x.i, v))), close, count + 1)

PEntry(T, i, close) ==
  Node(T, "ENTRY", i,
    IF AtAttr(T, i) THEN PAttrGroup(T, i, close)
    ELSE LET a == IF AtEntryEnd(T, i, close) THEN From(i) ELSE Node(T, "KEY", i, PAtom(T, i))
         IN PValues(T, SkipWs(T, a), close, 0))

RECURSIVE Docs(_, _)
Docs(T, x) == IF K(T, x.i) = "DocComment" THEN Docs(T, Skip(T, Bump(T, x), {"Whitespace", "Newline"})) ELSE x

PEntries(T, x0, close) ==
  LET x == Docs(T, SkipTrivia(T, x0)) IN
  IF K(T, x.i) = "Eof" \/ K(T, x.i) = close THEN x
  ELSE LET y == SkipWs(T, Then(x, PEntry(T, x.i, close)))
       IN PEntries(T, IF K(T, y.i) \in {"Comma", "Newline"} THEN Bump(T, y) ELSE y, close)

(* tokens with the lengths of tag segments, and Eof at the end *)
CstTokens(cs) ==
  LET T == Tokens(cs) IN
  [i \in 1..(Len(T) + 1) |->
     IF i > Len(T) THEN [k |-> "Eof", s |-> Len(cs) + 1, e |-> Len(cs) + 1, n |-> <<>>]
     ELSE [k |-> T[i].k, s |-> T[i].s, e |-> T[i].e,
           n |-> IF T[i].k = "Tag" THEN SegLens(Text(cs, T[i].s, T[i].e), 1, 0) ELSE <<>>]]

Cst(cs) == LET T == CstTokens(cs)
               x == PEntries(T, From(1), "none")
           IN Node(T, "DOCUMENT", 1, x)
=============================================================================
