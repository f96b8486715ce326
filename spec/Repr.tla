-------------------------------- MODULE Repr -------------------------------
(***************************************************************************)
(* From parsed tokens to output words under a configuration.               *)
(* A word is [toks, ty, np]: its subtokens, its type, and the              *)
(* non-processable tokens it contributes.  Token list, word boundaries,    *)
(* types and the set of non-processable tokens are read off the words.     *)
(* Configuration: [mode, com, str, max, spaces, unicode, case]             *)
(*   mode in {"no", "full", "basic", "num", "ronin", "stem", "bpe"};       *)
(*   com/str/spaces/unicode                                                *)
(*   TRUE when kept; max = 0 for unlimited; case TRUE when preserved.      *)
(***************************************************************************)
EXTENDS Parse, Bpe

S_comment  == <<60,99,111,109,109,101,110,116,62>>                 \* <comment>
S_str      == <<60,115,116,114,45,108,105,116,101,114,97,108,62>>  \* <str-literal>
S_w        == <<60,119,62>>
S_we       == <<60,47,119,62>>
S_Cap      == <<60,67,97,112,62>>
S_CAPS     == <<60,67,65,80,83,62>>
S_EOL      == <<60,69,79,76,62>>
S_nonen    == <<60,110,111,110,45,101,110,62>>
S_t        == <<60,47,116,62>>
S_quote    == <<QUOTE>>

PlainCfg(mode) == [mode |-> mode, com |-> TRUE, str |-> TRUE, max |-> 0, spaces |-> TRUE, unicode |-> TRUE, case |-> TRUE]
Unfiltered(cfg) == [PlainCfg(cfg.mode) EXCEPT !.case = cfg.case]

W(toks, ty) == [toks |-> toks, ty |-> ty, np |-> {}]
Atom(v, ty) == [toks |-> <<v>>, ty |-> ty, np |-> {v}]

OpType(v) == CASE v = <<59>>  -> "Semicolon"
               [] v = <<123>> -> "OpeningCurlyBracket"
               [] v = <<125>> -> "ClosingCurlyBracket"
               [] v = <<40>>  -> "OpeningBracket"
               [] v = <<41>>  -> "ClosingBracket"
               [] OTHER       -> "Operator"

\* runs of non-ASCII characters become one mark each
RECURSIVE MarkFrom(_, _)
MarkFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] < 128 THEN <<s[i]>> \o MarkFrom(s, i + 1)
  ELSE <<NonAsciiMark>> \o MarkFrom(s, RunEnd(LAMBDA c : c > 127, s, i))
MarkNonAscii(s) == MarkFrom(s, 1)
\* the same in a string literal, where the blank marks are kept
RECURSIVE MarkStrFrom(_, _)
MarkStrFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] = NBSP \/ s[i] < 128 THEN <<s[i]>> \o MarkStrFrom(s, i + 1)
  ELSE <<NonAsciiMark>> \o MarkStrFrom(s, RunEnd(LAMBDA c : c > 127 /\ c # NBSP, s, i))

\* pieces of an identifier, with or without case
CasePiece(p) ==
  IF p = <<USC>> \/ IsLowerStr(p) THEN <<p>>
  ELSE IF Restorable(p) THEN <<S_CAPS, Lower(p)>>
  ELSE IF Restorable(<<p[1]>>) THEN <<S_Cap, Lower(<<p[1]>>) \o Tail(p)>>
  ELSE <<p>>
\* ronin and stemming cut the pieces further, as the splitter and the stemmer (environment) answer; the stand-ins used for
\* them cut every three characters, and lower a word and drop a final s or 3
RECURSIVE RoninParts(_)
RoninParts(w) == IF Len(w) <= 3 THEN <<w>> ELSE <<SubSeq(w, 1, 3)>> \o RoninParts(SubSeq(w, 4, Len(w)))
StemAnswer(w) == LET x == Lower(w) IN IF Len(x) > 1 /\ x[Len(x)] \in {115, 51} THEN SubSeq(x, 1, Len(x) - 1) ELSE x
\* of ASCII words only
IsUp(c) == c \in 65..90
IsUpperWord(w) == (\E i \in DOMAIN w : IsUp(w[i])) /\ ~(\E i \in DOMAIN w : w[i] \in 97..122)
UpC(c) == IF c \in 97..122 THEN c - 32 ELSE c
StemKeepingCase(w) == LET x == StemAnswer(w)
                      IN  IF IsUpperWord(w) THEN [i \in DOMAIN x |-> UpC(x[i])]
                          ELSE IF IsUp(w[1]) THEN [i \in DOMAIN x |-> IF i = 1 THEN UpC(x[i]) ELSE x[i]]
                          ELSE x
CutPiece(p, mode) == IF p = <<USC>> THEN <<p>>
                     ELSE IF mode = "ronin" THEN RoninParts(p)
                     ELSE IF mode = "stem" THEN MapSeq(StemKeepingCase, RoninParts(p))
                     ELSE <<p>>
CutCasePiece(p, mode) == LET c == CasePiece(p)
                         IN  IF Len(c) = 2 THEN <<c[1]>> \o CutPiece(c[2], mode) ELSE CutPiece(c[1], mode)
SplitId(v, case, mode) ==
  LET res == IF case THEN MapCat(LAMBDA p : CutPiece(p, mode), IdPieces(v)) ELSE MapCat(LAMBDA p : CutCasePiece(p, mode), IdPieces(v))
  IN  IF Len(res) = 1 \/ (Len(res) = 2 /\ res[1] \in {S_Cap, S_CAPS}) THEN res
      ELSE <<S_w>> \o res \o <<S_we>>

Chars1(v) == [i \in DOMAIN v |-> <<v[i]>>]

StrText(t) == MapCat(LAMBDA s : s.v, t.sub)

LeafWords(t, cfg, merges) ==      \* every token but comments and strings
  CASE t.t \in {"NewLine", "Tab"} -> IF cfg.spaces THEN <<Atom(t.v, t.t)>> ELSE <<>>
    [] t.t = "Op"      -> <<Atom(t.v, OpType(t.v))>>
    [] t.t = "KW"      -> <<Atom(t.v, "KeyWord")>>
    [] t.t = "NCC"     -> <<Atom(t.v, "NonCodeChar")>>
    [] t.t = "Special" -> <<Atom(t.v, "SpecialToken")>>
    [] t.t = "Blanks"  -> <<W(<<t.v>>, "SpaceInString")>>
    [] t.t \in {"Zero", "One"} -> <<W(<<t.v>>, t.t)>>
    [] t.t = "Num"     ->
         IF cfg.mode = "bpe" THEN <<W(Encode(t.v, merges), "Number")>>
         ELSE IF cfg.mode \in {"num", "ronin", "stem"} /\ Len(t.v) > 1 THEN <<W(<<S_w>> \o Chars1(t.v) \o <<S_we>>, "Number")>>
         ELSE <<W(<<t.v>>, "Number")>>
    [] t.t = "Id"      ->
         IF cfg.mode = "bpe"
           THEN <<W(Encode(IF cfg.unicode THEN t.v ELSE MarkNonAscii(t.v), merges), "SplitContainer")>>
         ELSE IF ~cfg.unicode /\ HasNonAscii(t.v) THEN <<W(<<S_nonen>>, "NonEng")>>
         ELSE IF cfg.mode \in {"no", "full"} THEN <<W(<<t.v>>, "SplitContainer")>>
         ELSE <<W(SplitId(t.v, cfg.case, cfg.mode), "SplitContainer")>>

Retype(ws, ty) == [i \in DOMAIN ws |-> [ws[i] EXCEPT !.ty = ty]]

TokenWords(t, cfg, merges) ==
  CASE t.t = "OLC" ->
         IF ~cfg.com THEN <<W(<<S_comment>>, "OneLineComment")>>
         ELSE Retype(MapCat(LAMBDA s : LeafWords(s, cfg, merges), t.sub) \o <<W(<<S_EOL>>, "OneLineComment")>>, "OneLineComment")
    [] t.t = "MLC" ->
         IF ~cfg.com THEN <<W(<<S_comment>>, "MultilineComment")>>
         ELSE Retype(MapCat(LAMBDA s : LeafWords(s, cfg, merges), t.sub), "MultilineComment")
    [] t.t = "Str" ->
         LET text == IF cfg.unicode THEN StrText(t) ELSE MarkStrFrom(StrText(t), 1)
         IN  IF ~cfg.str THEN <<W(<<S_str>>, "StringLiteral")>>
             ELSE IF cfg.max > 0 /\ t.n > cfg.max
                  THEN IF cfg.mode = "full" THEN <<W(<<<<QUOTE, QUOTE>>>>, "StringLiteral")>>
                       ELSE <<[toks |-> <<S_quote, S_quote>>, ty |-> "StringLiteral", np |-> {S_quote}]>>
             ELSE IF cfg.mode = "bpe" THEN <<W(Encode(text, merges), "StringLiteral")>>
             ELSE IF cfg.mode = "full" THEN <<W(<<text>>, "StringLiteral")>>
             ELSE Retype(MapCat(LAMBDA s : LeafWords(s, cfg, merges),
                                SelectSeq(t.sub, LAMBDA s : s.t # "Blanks")), "StringLiteral")
    [] OTHER -> LeafWords(t, cfg, merges)

ReprWords(parsed, cfg, merges) == MapCat(LAMBDA t : TokenWords(t, cfg, merges), parsed)

\* -------------------------------------------------------- what is returned
MarkEnd(toks) == [i \in DOMAIN toks |-> IF i = Len(toks) THEN toks[i] \o S_t ELSE toks[i]]
OutTokens(words, cfg) ==
  MapCat(LAMBDA w : IF cfg.mode = "bpe" THEN MarkEnd(w.toks) ELSE w.toks, words)
RECURSIVE Bounds(_, _, _)
Bounds(words, i, at) ==
  IF i > Len(words) THEN <<at>> ELSE <<at>> \o Bounds(words, i + 1, at + Len(words[i].toks))
OutBounds(words) == Bounds(words, 1, 0)
OutTypes(words) == [i \in DOMAIN words |-> words[i].ty]
OutNonProc(words) == UNION {words[i].np : i \in DOMAIN words}
=============================================================================
