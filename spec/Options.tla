------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* The option sets of the splitting commands: which the command line       *)
(* accepts, what they mean (the configuration of module Repr they select), *)
(* and how they are encoded as a configuration string.                     *)
(* An option set: [cmd, codes, spaces, unicode, com, str, case, full,      *)
(* nums, ronin, stem, max]; the switches are TRUE when given (--no-spaces, *)
(* --no-unicode, ...), max = -1 when no maximal length is given.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Cmds == {"nosplit", "chars", "basic", "bpe"}
Codes(cmd) == IF cmd = "bpe" THEN {"1k", "5k", "10k", "custom"} ELSE {""}
Switches == {"spaces", "unicode", "com", "str", "case", "full", "nums", "ronin", "stem"}

\* the usage of each command, as documented
Takes(cmd) == CASE cmd = "nosplit" -> {"spaces", "unicode", "com", "str", "full"}
                [] cmd = "chars"   -> {"spaces", "unicode", "com", "str"}
                [] cmd = "basic"   -> {"spaces", "unicode", "com", "str", "case", "nums", "ronin", "stem"}
                [] cmd = "bpe"     -> {"spaces", "unicode", "com", "str"}
Given(o) == {s \in Switches : o[s]}
\* "yes", "no", or "either" where the usage may be read both ways ([-n [-r [-s]]] with an outer option left out)
CliVerdict(o) ==
  IF ~(Given(o) \subseteq Takes(o.cmd)) THEN "no"
  ELSE IF o.str /\ (o.max # -1 \/ o.full) THEN "no"          \* (--no-str | -L [--full-strings])
  ELSE IF (o.ronin /\ ~o.nums) \/ (o.stem /\ ~o.ronin) THEN "either"
  ELSE "yes"

\* the functions take every combination of the options they have
ApiVerdict(o) ==
  IF o.case /\ o.cmd \in {"nosplit", "bpe"} THEN "no"         \* lowercasing needs splitting
  ELSE IF Given(o) \subseteq Takes(o.cmd) THEN "yes" ELSE "either"

\* ----------------------------------------------------------------- meaning
MaxStr == 61        \* longer limits are the same as none
Limit(o) == IF o.str \/ o.max < 0 \/ o.max > MaxStr THEN 0 ELSE IF o.max < 2 THEN 2 ELSE o.max
Mode(o) == CASE o.cmd = "nosplit" -> IF o.full /\ ~o.str THEN "full" ELSE "no"
             [] o.cmd = "basic"   -> IF o.stem THEN "stem" ELSE IF o.ronin THEN "ronin" ELSE IF o.nums THEN "num" ELSE "basic"
             [] o.cmd = "chars"   -> "chars"
             [] o.cmd = "bpe"     -> o.codes
Config(o) == [mode |-> Mode(o), com |-> ~o.com, str |-> ~o.str, max |-> Limit(o), spaces |-> ~o.spaces, unicode |-> ~o.unicode, case |-> ~o.case]

\* ---------------------------------------------------------------- encoding
\* a configuration string as the sequence of its six characters (code points)
StrChar(n) == IF n < 10 THEN 48 + n ELSE IF n < 36 THEN 65 + (n - 10) ELSE 97 + (n - 36)
StrChars == {StrChar(n) : n \in 0..MaxStr}
SplitChar(o) == CASE o.cmd = "nosplit" -> IF o.full THEN 70 ELSE 48
                  [] o.cmd = "chars"   -> 56
                  [] o.cmd = "basic"   -> IF o.stem THEN 115 ELSE IF o.ronin THEN 51 ELSE IF o.nums THEN 50 ELSE 49
                  [] o.cmd = "bpe"     -> CASE o.codes = "1k" -> 53 [] o.codes = "5k" -> 52 [] o.codes = "10k" -> 54 [] OTHER -> 57
Encode(o) == << IF o.unicode THEN 85 ELSE 117,
                IF o.com THEN 48 ELSE 99,
                IF o.str THEN 48 ELSE IF Limit(o) = 0 THEN 49 ELSE StrChar(Limit(o)),
                SplitChar(o),
                IF o.spaces THEN 48 ELSE 115,
                IF o.case THEN 108 ELSE 117 >>
Alphabet == << {117, 85}, {48, 99}, StrChars, {48, 70, 49, 50, 51, 115, 52, 53, 54, 55, 56, 57}, {115, 48}, {117, 108} >>
DecVerdict(s) ==
  IF Len(s) # 6 \/ (\E k \in 1..6 : s[k] \notin Alphabet[k]) THEN "no"
  ELSE IF s[6] = 108 /\ s[4] \in {48, 70, 52, 53, 54, 57} THEN "no"
  ELSE IF s[4] = 55 \/ (s[6] = 108 /\ s[4] = 56) THEN "either"            \* no option selects these
  ELSE "yes"

DecLimit(c) == IF c = 48 \/ c = 49 THEN 0 ELSE CHOOSE n \in 0..MaxStr : StrChar(n) = c
DecMode(s) == CASE s[4] = 48 -> "no" [] s[4] = 70 -> (IF s[3] = 48 THEN "no" ELSE "full") [] s[4] = 49 -> "basic" [] s[4] = 50 -> "num"
                [] s[4] = 51 -> "ronin" [] s[4] = 115 -> "stem" [] s[4] = 52 -> "5k" [] s[4] = 53 -> "1k" [] s[4] = 54 -> "10k"
                [] s[4] = 56 -> "chars" [] OTHER -> "custom"
Decode(s) == [mode |-> DecMode(s), com |-> s[2] = 99, str |-> s[3] # 48, max |-> DecLimit(s[3]), spaces |-> s[5] = 115,
              unicode |-> s[1] = 117, case |-> s[6] = 117]
=============================================================================
