------------------------------ MODULE BpeLearn ------------------------------
(***************************************************************************)
(* Learning byte-pair merges: the state is the segmentation of the base    *)
(* vocabulary (a sequence of [s, f]: symbols of a word, its frequency) and *)
(* the list of merges made so far (a sequence of [p, f]).  A step picks    *)
(* any pair of adjacent symbols of the highest frequency, records it with  *)
(* that frequency, and applies it to every word.                           *)
(***************************************************************************)
EXTENDS Bpe

PairsOf(s) == [i \in 1..(Len(s) - 1) |-> <<s[i], s[i + 1]>>]
AllPairs(voc) == UNION {{PairsOf(voc[k].s)[i] : i \in 1..(Len(voc[k].s) - 1)} : k \in DOMAIN voc}
CountIn(s, p) == Cardinality({i \in 1..(Len(s) - 1) : s[i] = p[1] /\ s[i + 1] = p[2]})
PairFreq(voc, p) == FoldLeft(LAMBDA a, w : a + w.f * CountIn(w.s, p), 0, voc)

MaxFreq(voc) == LET fs == {PairFreq(voc, p) : p \in AllPairs(voc)} IN CHOOSE m \in fs : \A x \in fs : x <= m
BestPairs(voc) == IF AllPairs(voc) = {} THEN {} ELSE LET m == MaxFreq(voc) IN {p \in AllPairs(voc) : PairFreq(voc, p) = m}

ApplyAll(voc, p) == [k \in DOMAIN voc |-> [voc[k] EXCEPT !.s = ApplyMerge(@, p)]]

StartVoc(base) == [k \in DOMAIN base |-> [s |-> StartSymbols(base[k].w), f |-> base[k].f]]

\* subword counts: the resulting vocabulary as a function
Symbols(voc) == UNION {{voc[k].s[i] : i \in DOMAIN voc[k].s} : k \in DOMAIN voc}
SymCount(voc, y) == FoldLeft(LAMBDA a, w : a + w.f * Cardinality({i \in DOMAIN w.s : w.s[i] = y}), 0, voc)

JoinSyms(s) == FoldLeft(LAMBDA a, b : a \o b, <<>>, s)

\* replay of the recorded merges on the specification's state: [voc, bad]
RECURSIVE Replay(_, _, _)
Replay(voc, ms, bad) ==
  IF ms = <<>> THEN [voc |-> voc, bad |-> bad]
  ELSE LET m == ms[1]
           best == BestPairs(voc)
           b == (IF m.p \notin AllPairs(voc) THEN {"merge of a pair that does not occur"}
                 ELSE IF m.p \notin best THEN {"not a most frequent pair"} ELSE {})
                \cup (IF PairFreq(voc, m.p) # m.f THEN {"recorded frequency"} ELSE {})
       IN  Replay(ApplyAll(voc, m.p), Tail(ms), bad \cup b)

Set(s) == {s[i] : i \in DOMAIN s}
List(ms) == [i \in DOMAIN ms |-> ms[i].p]
Enc(w, list) == IF list = <<>> THEN StartSymbols(w) ELSE EncodeSyms(StartSymbols(w), list, RankOf(list))

=============================================================================
