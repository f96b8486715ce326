------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Text is a sequence of code points (naturals).  The facts about a        *)
(* character that the system relies on (letter case, word character,       *)
(* blank) belong to the environment: for ASCII they are defined here, for  *)
(* other characters they come from the table Uni (Unicode data, not the    *)
(* code under test).                                                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

CONSTANT Uni    \* sequence of [c, w, u, l, t, s, lo, up] for the non-ASCII code points in use

ASSUME /\ \A i \in DOMAIN Uni : Uni[i].c > 127

UniSet == {Uni[i].c : i \in DOMAIN Uni}
UniFn  == [c \in UniSet |-> Uni[CHOOSE i \in DOMAIN Uni : Uni[i].c = c]]

NL == 10   TAB == 9   SP == 32   AT == 64   USC == 95   NBSP == 160   QUOTE == 34
NonAsciiMark == 247          \* placeholder for a run of non-ASCII characters

IsAscii(c) == c < 128
IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == IF c < 128 THEN c >= 65 /\ c <= 90  ELSE UniFn[c].u
IsLower(c) == IF c < 128 THEN c >= 97 /\ c <= 122 ELSE UniFn[c].l
IsTitle(c) == c >= 128 /\ UniFn[c].t
IsWordCh(c) == IF c < 128 THEN IsDigit(c) \/ IsUpper(c) \/ IsLower(c) \/ c = USC ELSE UniFn[c].w
IsBlank(c) == IF c < 128 THEN c \in (9..13) \cup (28..32) ELSE UniFn[c].s
LowerCh(c) == IF c < 128 THEN (IF IsUpper(c) THEN <<c + 32>> ELSE <<c>>) ELSE UniFn[c].lo
UpperCh(c) == IF c < 128 THEN (IF IsLower(c) THEN <<c - 32>> ELSE <<c>>) ELSE UniFn[c].up

CatAll(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
MapCat(Op(_), s) == FoldLeft(LAMBDA a, x : a \o Op(x), <<>>, s)
MapSeq(Op(_), s) == [i \in DOMAIN s |-> Op(s[i])]
AllOf(P(_), s) == \A i \in DOMAIN s : P(s[i])
SomeOf(P(_), s) == \E i \in DOMAIN s : P(s[i])

Lower(s) == MapCat(LowerCh, s)
Upper(s) == MapCat(UpperCh, s)

AllBlank(s) == AllOf(IsBlank, s)
HasNonAscii(s) == \E i \in DOMAIN s : s[i] > 127
NonBlanks(s) == SelectSeq(s, LAMBDA c : ~IsBlank(c))

\* a string has a cased character and no upper/title-case one (or no lower/title-case one)
IsLowerStr(s) == (\E i \in DOMAIN s : IsLower(s[i])) /\ (\A i \in DOMAIN s : ~IsUpper(s[i]) /\ ~IsTitle(s[i]))
IsUpperStr(s) == (\E i \in DOMAIN s : IsUpper(s[i])) /\ (\A i \in DOMAIN s : ~IsLower(s[i]) /\ ~IsTitle(s[i]))
\* upper case that can be restored from its lower-case form
Restorable(s) == IsUpperStr(s) /\ ~IsUpperStr(Lower(s)) /\ Upper(Lower(s)) = s

\* end (exclusive) of the maximal run of P-characters of s that starts at i
RECURSIVE RunEnd(_, _, _)
RunEnd(P(_), s, i) == IF i <= Len(s) /\ P(s[i]) THEN RunEnd(P, s, i + 1) ELSE i

Sub(s, i, j) == SubSeq(s, i, j - 1)          \* [i, j)

\* s split at blanks, without empty parts
RECURSIVE SplitBlankFrom(_, _)
SplitBlankFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF IsBlank(s[i]) THEN SplitBlankFrom(s, i + 1)
  ELSE LET j == RunEnd(LAMBDA c : ~IsBlank(c), s, i)
       IN  <<Sub(s, i, j)>> \o SplitBlankFrom(s, j)
SplitBlank(s) == SplitBlankFrom(s, 1)

EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
StartsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
=============================================================================
