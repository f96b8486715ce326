----------------------------- MODULE BpeLearnMC -----------------------------
(***************************************************************************)
(* Every vocabulary of at most MaxWords words over a small alphabet, every *)
(* choice between equally frequent pairs: the segmentation always is what  *)
(* encoding with the merges so far gives, no pair is learned twice,        *)
(* frequencies never increase, and stopping after some merges and going on *)
(* later from the segmentation reached is the same machine.                *)
(***************************************************************************)
EXTENDS BpeLearn, TLC
CONSTANTS Alpha, MaxLen, MaxWords, MaxFreqC
VARIABLES base, voc, merges
vars == <<base, voc, merges>>

Words == UNION {[1..n -> Alpha] : n \in 1..MaxLen}
Code(w) == FoldLeft(LAMBDA a, c : a * 130 + c, 0, w)
Bases == UNION {{b \in [1..n -> [w : Words, f : 1..MaxFreqC]] : \A i \in 1..(n-1) : Code(b[i].w) < Code(b[i + 1].w)} : n \in 1..MaxWords}

Init == base \in Bases /\ voc = StartVoc(base) /\ merges = <<>>
Learn(p) == merges' = Append(merges, [p |-> p, f |-> PairFreq(voc, p)]) /\ voc' = ApplyAll(voc, p) /\ UNCHANGED base
Next == \E p \in BestPairs(voc) : Learn(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Learned == [i \in DOMAIN merges |-> merges[i].p]
AsEncoding == \A k \in DOMAIN base : voc[k].s = (IF Learned = <<>> THEN StartSymbols(base[k].w)
                                                 ELSE EncodeSyms(StartSymbols(base[k].w), Learned, RankOf(Learned)))
NoneTwice == \A i, j \in DOMAIN merges : i # j => merges[i].p # merges[j].p
Decreasing == \A i \in 1..(Len(merges) - 1) : merges[i + 1].f <= merges[i].f
JoinsBack == \A k \in DOMAIN base : JoinSyms(voc[k].s) = JoinSyms(StartSymbols(base[k].w))
NoUni == <<>>
AtEnd == AllPairs(voc) = {} => \A k \in DOMAIN voc : Len(voc[k].s) = 1
Terminates == <>(AllPairs(voc) = {})
=============================================================================
