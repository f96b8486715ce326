-------------------------------- MODULE Iter --------------------------------
(***************************************************************************)
(* Iterating over a list of subtokens that word boundaries cut into words. *)
(* An iterator is a state machine whose state is a position; each step     *)
(* yields one item until it is exhausted, and it stays exhausted.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* boundaries the constructor must reject
MustReject(n, wb) == wb = <<>> \/ wb[1] # 0 \/ wb[Len(wb)] # n
\* boundaries the property speaks about
Consistent(n, wb) == ~MustReject(n, wb) /\ \A i \in 1..(Len(wb) - 1) : wb[i] < wb[i + 1]

Init0 == [word |-> 0, idx |-> 0]

FullDone(subs, wb, s) == s.word >= Len(wb) - 1
FullItem(subs, wb, s) == [w |-> s.word, v |-> SubSeq(subs, wb[s.word + 1] + 1, wb[s.word + 2])]
FullStep(subs, wb, s) == [word |-> s.word + 1, idx |-> wb[s.word + 2]]

SubDone(subs, wb, s) == s.idx >= Len(subs)
SubItem(subs, wb, s) == [w |-> s.word, v |-> <<subs[s.idx + 1]>>]
SubStep(subs, wb, s) ==
  [word |-> IF wb[s.word + 2] = s.idx + 1 THEN s.word + 1 ELSE s.word, idx |-> s.idx + 1]

\* all items, as the state machine yields them
RECURSIVE FullRun(_, _, _)
FullRun(subs, wb, s) == IF FullDone(subs, wb, s) THEN <<>>
                        ELSE <<FullItem(subs, wb, s)>> \o FullRun(subs, wb, FullStep(subs, wb, s))
RECURSIVE SubRun(_, _, _)
SubRun(subs, wb, s) == IF SubDone(subs, wb, s) THEN <<>>
                       ELSE <<SubItem(subs, wb, s)>> \o SubRun(subs, wb, SubStep(subs, wb, s))

RECURSIVE Flat(_)
Flat(items) == IF items = <<>> THEN <<>> ELSE Head(items).v \o Flat(Tail(items))

\* marks[i]: does subtoken i carry the word-end mark?
MarksAgree(marks, wb) == \A i \in DOMAIN marks : marks[i] <=> \E k \in DOMAIN wb : wb[k] = i
=============================================================================
