------------------------------- MODULE IterMC -------------------------------
(* The partition property of both iterators, for every list and boundaries up to MaxN. *)
EXTENDS Iter, TLC, SequencesExt, FiniteSets, FiniteSetsExt
CONSTANT MaxN
VARIABLES n, wb, fs, ss, fout, sout
vars == <<n, wb, fs, ss, fout, sout>>

Subs == [i \in 1..n |-> i]
Init ==
  /\ n \in 0..MaxN
  /\ \E S \in SUBSET (1..(n - 1)) : wb = SetToSortSeq(S \cup {0, n}, <)
  /\ fs = Init0 /\ ss = Init0 /\ fout = <<>> /\ sout = <<>>
NextFull == ~FullDone(Subs, wb, fs) /\ fout' = Append(fout, FullItem(Subs, wb, fs)) /\ fs' = FullStep(Subs, wb, fs) /\ UNCHANGED <<n, wb, ss, sout>>
NextSub == ~SubDone(Subs, wb, ss) /\ sout' = Append(sout, SubItem(Subs, wb, ss)) /\ ss' = SubStep(Subs, wb, ss) /\ UNCHANGED <<n, wb, fs, fout>>
Next == NextFull \/ NextSub
Spec == Init /\ [][Next]_vars /\ WF_vars(NextFull) /\ WF_vars(NextSub)

WordOf(i) == CHOOSE w \in 0..(Len(wb) - 2) : wb[w + 1] < i /\ i <= wb[w + 2]
FullIsPrefix == Flat(fout) = SubSeq(Subs, 1, fs.idx)
SubIsPrefix == Flat(sout) = SubSeq(Subs, 1, ss.idx)
OnePerWord == \A i \in DOMAIN fout : fout[i].w = i - 1 /\ fout[i].v # <<>>
SubIndex == \A i \in DOMAIN sout : sout[i].w = WordOf(i)
Agree == (FullDone(Subs, wb, fs) /\ SubDone(Subs, wb, ss)) =>
            /\ Len(fout) = Len(wb) - 1 /\ Len(sout) = n
            /\ \A i \in DOMAIN fout : fout[i].v = Flat(SelectSeq(sout, LAMBDA x : x.w = i - 1))
Done == <>(FullDone(Subs, wb, fs) /\ SubDone(Subs, wb, ss))
=============================================================================
