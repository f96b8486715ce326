------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* How data is laid out in files: an escaped string uses printable ASCII   *)
(* characters only (a blank of the string stays), records are lines,       *)
(* fields are separated by a delimiter that no escaped field contains.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

NL == 10   TAB == 9   CR == 13   SP == 32   BS == 92
Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE HexN(_, _)
HexN(v, n) == IF n = 0 THEN <<>> ELSE Append(HexN(v \div 16, n - 1), Hex(v % 16))

EscapeCh(c) ==
  CASE c = BS  -> <<BS, BS>>
    [] c = NL  -> <<BS, 110>>
    [] c = CR  -> <<BS, 114>>
    [] c = TAB -> <<BS, 116>>
    [] c >= 32 /\ c <= 126 /\ c # BS -> <<c>>
    [] c < 256 /\ ~(c >= 32 /\ c <= 126) /\ c \notin {NL, CR, TAB} -> <<BS, 120>> \o HexN(c, 2)
    [] c >= 256 /\ c < 65536 -> <<BS, 117>> \o HexN(c, 4)
    [] OTHER   -> <<BS, 85>> \o HexN(c, 8)
Escape(s) == FoldLeft(LAMBDA a, c : a \o EscapeCh(c), <<>>, s)

Val(h) == IF h >= 48 /\ h <= 57 THEN h - 48 ELSE h - 87
RECURSIVE HexVal(_, _, _, _)
HexVal(s, i, n, v) == IF n = 0 THEN v ELSE HexVal(s, i + 1, n - 1, v * 16 + Val(s[i]))

RECURSIVE UnescFrom(_, _)
UnescFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] # BS THEN <<s[i]>> \o UnescFrom(s, i + 1)
  ELSE CASE s[i + 1] = BS  -> <<BS>> \o UnescFrom(s, i + 2)
         [] s[i + 1] = 110 -> <<NL>> \o UnescFrom(s, i + 2)
         [] s[i + 1] = 114 -> <<CR>> \o UnescFrom(s, i + 2)
         [] s[i + 1] = 116 -> <<TAB>> \o UnescFrom(s, i + 2)
         [] s[i + 1] = 120 -> <<HexVal(s, i + 2, 2, 0)>> \o UnescFrom(s, i + 4)
         [] s[i + 1] = 117 -> <<HexVal(s, i + 2, 4, 0)>> \o UnescFrom(s, i + 6)
         [] OTHER          -> <<HexVal(s, i + 2, 8, 0)>> \o UnescFrom(s, i + 10)
Unesc(s) == UnescFrom(s, 1)

\* s cut at every d (n delimiters give n + 1 parts)
RECURSIVE CutFrom(_, _, _, _)
CutFrom(s, d, i, part) ==
  IF i > Len(s) THEN <<part>>
  ELSE IF s[i] = d THEN <<part>> \o CutFrom(s, d, i + 1, <<>>)
  ELSE CutFrom(s, d, i + 1, Append(part, s[i]))
Cut(s, d) == CutFrom(s, d, 1, <<>>)

Join(parts, d) == FoldLeft(LAMBDA a, i : IF i = 1 THEN parts[1] ELSE a \o <<d>> \o parts[i], <<>>, [i \in DOMAIN parts |-> i])

\* a file of records: every record ends its line
FileOf(records) == FoldLeft(LAMBDA a, r : a \o r \o <<NL>>, <<>>, records)
Records(file) == LET c == Cut(file, NL) IN SubSeq(c, 1, Len(c) - 1)       \* what follows the last line end is no record
EndsLine(file) == file = <<>> \/ file[Len(file)] = NL
=============================================================================
