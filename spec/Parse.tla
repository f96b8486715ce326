------------------------------- MODULE Parse -------------------------------
(***************************************************************************)
(* From the lexemes that the (environment's) lexer reports to the abstract *)
(* parsed tokens.  A lexeme is [p, v]: p the path of its token type, e.g.  *)
(* <<"Literal", "String", "Double">>, v its text.  A parsed token is       *)
(* [t, v, sub, n]: kind, text, nested tokens, length.                      *)
(***************************************************************************)
EXTENDS Chars

Tok(t, v) == [t |-> t, v |-> v, sub |-> <<>>, n |-> Len(v)]

\* -------------------------------------------------- numbers inside words
IsHex(c) == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
IsBin(c) == c = 48 \/ c = 49

\* non-empty groups of P-characters separated by single underscores
Groups(P(_), s) ==
  /\ s # <<>>
  /\ \A i \in DOMAIN s : P(s[i]) \/ s[i] = USC
  /\ P(s[1]) /\ P(s[Len(s)])
  /\ \A i \in 1..(Len(s) - 1) : ~(s[i] = USC /\ s[i + 1] = USC)

DropLastIn(s, S) == IF s # <<>> /\ s[Len(s)] \in S THEN SubSeq(s, 1, Len(s) - 1) ELSE s

LongSuffix == {108, 76}                          \* l L
DecSuffix  == {108, 76, 102, 70, 100, 68}        \* l L f F d D
FltSuffix  == {102, 70, 100, 68}                 \* f F d D

IsExp(s) ==        \* digits, e or E, digits, optional f F d D
  LET b == DropLastIn(s, FltSuffix)
  IN  \E k \in DOMAIN b : /\ b[k] \in {101, 69} /\ k > 1 /\ k < Len(b)
                          /\ \A i \in DOMAIN b : i # k => IsDigit(b[i])

IsNumber(w) ==
  \/ Len(w) > 2 /\ w[1] = 48 /\ w[2] = 120 /\ Groups(IsHex, DropLastIn(SubSeq(w, 3, Len(w)), LongSuffix))
  \/ Len(w) > 2 /\ w[1] = 48 /\ w[2] = 98  /\ Groups(IsBin, DropLastIn(SubSeq(w, 3, Len(w)), LongSuffix))
  \/ Groups(IsDigit, DropLastIn(w, DecSuffix))
  \/ IsExp(w)

\* ----------------------------------------------------- words of plain text
ToToken(w) ==
  IF w = <<NL>> THEN Tok("NewLine", w)
  ELSE IF w = <<TAB>> THEN Tok("Tab", w)
  ELSE IF IsNumber(w) THEN Tok("Num", Lower(w))
  ELSE IF AllOf(IsWordCh, w) THEN Tok("Id", w)
  ELSE Tok("NCC", w)

RECURSIVE Words(_, _)      \* blanks count as tabs, four each; single blanks are dropped
Words(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF IsWordCh(s[i]) THEN LET j == RunEnd(IsWordCh, s, i) IN <<ToToken(Sub(s, i, j))>> \o Words(s, j)
  ELSE IF s[i] # SP THEN <<ToToken(<<s[i]>>)>> \o Words(s, i + 1)
  ELSE IF i + 3 <= Len(s) /\ s[i+1] = SP /\ s[i+2] = SP /\ s[i+3] = SP
       THEN <<Tok("Tab", <<TAB>>)>> \o Words(s, i + 4)
  ELSE Words(s, i + 1)

RECURSIVE StrWords(_, _)   \* inside a string literal every run of blanks is kept
StrWords(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF IsWordCh(s[i]) THEN LET j == RunEnd(IsWordCh, s, i) IN <<ToToken(Sub(s, i, j))>> \o StrWords(s, j)
  ELSE IF s[i] # SP THEN <<ToToken(<<s[i]>>)>> \o StrWords(s, i + 1)
  ELSE LET j == RunEnd(LAMBDA c : c = SP, s, i)
       IN  <<Tok("Blanks", [k \in 1..(j - i) |-> NBSP])>> \o StrWords(s, j)

\* ------------------------------------------------------- identifier pieces
RECURSIVE Pieces(_, _)
Pieces(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET c == s[i]
           One(j) == <<Sub(s, i, j)>> \o Pieces(s, j)
       IN  IF c = USC THEN One(i + 1)
           ELSE IF IsDigit(c) THEN One(RunEnd(IsDigit, s, i))
           ELSE IF IsLower(c) THEN One(RunEnd(IsLower, s, i))
           ELSE IF IsUpper(c) /\ i < Len(s) /\ IsLower(s[i + 1]) THEN One(RunEnd(IsLower, s, i + 1))
           ELSE IF IsUpper(c)
                THEN LET j == RunEnd(IsUpper, s, i)     \* an acronym; its last letter may start the next piece
                     IN  IF j <= Len(s) /\ IsLower(s[j]) /\ j - 1 > i THEN One(j - 1) ELSE One(j)
           ELSE One(i + 1)
IdPieces(s) == Pieces(s, 1)

\* ------------------------------------------------------------ lexeme kinds
HasPrefix(p, q) == Len(p) >= Len(q) /\ SubSeq(p, 1, Len(q)) = q

RECURSIVE Tabs(_)
Tabs(n) == IF n = 0 THEN <<>> ELSE <<Tok("Tab", <<TAB>>)>> \o Tabs(n - 1)

Each(t, vs) == MapSeq(LAMBDA v : Tok(t, v), vs)

\* the literals 0 and 1 are kinds of their own
NumLiteral(w) == Tok(IF w = <<48>> THEN "Zero" ELSE IF w = <<49>> THEN "One" ELSE "Num", Lower(w))

ParseLexeme(x) ==
  LET p == x.p  v == x.v IN
  IF v = <<NL>> THEN <<Tok("NewLine", v)>>
  ELSE IF v = <<TAB>> THEN <<Tok("Tab", v)>>
  ELSE IF AllBlank(v) THEN Tabs(Len(v) \div 4)
  ELSE IF p = <<"Operator">> \/ HasPrefix(p, <<"Punctuation">>) THEN Each("Op", SplitBlank(v))
  ELSE IF HasPrefix(p, <<"Literal", "Number">>) THEN MapSeq(NumLiteral, SplitBlank(v))
  ELSE IF HasPrefix(p, <<"Keyword">>) THEN Each("KW", SplitBlank(v))
  ELSE IF HasPrefix(p, <<"Literal", "String">>)
       THEN <<[t |-> "Str", v |-> v, sub |-> StrWords(v, 1), n |-> Len(v)]>>
  ELSE IF p = <<"Comment", "Single">> THEN <<[t |-> "OLC", v |-> v, sub |-> Words(v, 1), n |-> Len(v)]>>
  ELSE IF HasPrefix(p, <<"Comment">>) THEN <<[t |-> "MLC", v |-> v, sub |-> Words(v, 1), n |-> Len(v)]>>
  ELSE Words(v, 1)

ParseAll(lexemes) == MapCat(ParseLexeme, lexemes)

\* what text preprocessing works on: the final newline is dropped, <EOF> added on request
EOFv == <<60, 69, 79, 70, 62>>
DropLastNewLine(ts) == IF ts # <<>> /\ ts[Len(ts)].t = "NewLine" THEN SubSeq(ts, 1, Len(ts) - 1) ELSE ts
EofTok == Tok("Special", EOFv)
ParseText(lexemes, eof) ==
  DropLastNewLine(ParseAll(lexemes)) \o (IF eof THEN <<EofTok>> ELSE <<>>)
=============================================================================
