-------------------------------- MODULE Bpe --------------------------------
(***************************************************************************)
(* Byte-pair encoding of one word with a merge list: a state machine whose *)
(* state is the current list of symbols; a step applies the earliest merge *)
(* that matches anywhere to all its non-overlapping occurrences.           *)
(* Symbols are strings in the escaped alphabet ('@' doubled, final '@').   *)
(***************************************************************************)
EXTENDS Chars

StartSymbols(w) == Append([i \in DOMAIN w |-> IF w[i] = AT THEN <<AT, AT>> ELSE <<w[i]>>], <<AT>>)

Occurs(syms, m) == \E i \in 1..(Len(syms) - 1) : syms[i] = m[1] /\ syms[i + 1] = m[2]

RECURSIVE ApplyFrom(_, _, _)
ApplyFrom(syms, m, i) ==
  IF i > Len(syms) THEN <<>>
  ELSE IF i < Len(syms) /\ syms[i] = m[1] /\ syms[i + 1] = m[2]
       THEN <<m[1] \o m[2]>> \o ApplyFrom(syms, m, i + 2)
       ELSE <<syms[i]>> \o ApplyFrom(syms, m, i + 1)
ApplyMerge(syms, m) == ApplyFrom(syms, m, 1)

\* the merge list as a function from pairs to priorities
RankOf(merges) == [p \in {merges[i] : i \in DOMAIN merges} |-> CHOOSE i \in DOMAIN merges : merges[i] = p]

\* priority of the earliest merge that matches anywhere in syms, from position i on; best so far b (0 = none)
RECURSIVE BestFrom(_, _, _, _)
BestFrom(syms, rank, i, b) ==
  IF i >= Len(syms) THEN b
  ELSE LET p == <<syms[i], syms[i + 1]>>
           k == IF p \in DOMAIN rank THEN rank[p] ELSE 0
       IN  BestFrom(syms, rank, i + 1, IF k # 0 /\ (b = 0 \/ k < b) THEN k ELSE b)
Best(syms, rank) == BestFrom(syms, rank, 1, 0)

Enabled(syms, merges) == Best(syms, RankOf(merges)) # 0
Step(syms, merges) == ApplyMerge(syms, merges[Best(syms, RankOf(merges))])

RECURSIVE EncodeSyms(_, _, _)
EncodeSyms(syms, merges, rank) ==
  LET k == Best(syms, rank)
  IN  IF k = 0 THEN syms ELSE EncodeSyms(ApplyMerge(syms, merges[k]), merges, rank)

RECURSIVE UnescapeFrom(_, _)
UnescapeFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF i < Len(s) /\ s[i] = AT /\ s[i + 1] = AT THEN <<AT>> \o UnescapeFrom(s, i + 2)
  ELSE <<s[i]>> \o UnescapeFrom(s, i + 1)

Unescape(syms) ==
  [i \in DOMAIN syms |->
     UnescapeFrom(IF i = Len(syms) THEN SubSeq(syms[i], 1, Len(syms[i]) - 1) ELSE syms[i], 1)]

\* merges here is a pair: the list and its rank function
MergeTable(list) == [list |-> list, rank |-> RankOf(list)]
NoMerges == MergeTable(<<>>)
Encode(w, table) ==
  IF table.list = <<>> THEN Unescape(StartSymbols(w))
  ELSE Unescape(EncodeSyms(StartSymbols(w), table.list, table.rank))
=============================================================================
