------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* What a user of corpus preprocessing may rely on over a history of runs, *)
(* interrupted runs and dataset edits.  The dataset has a current content; *)
(* outs maps each output location to the content of the finished files     *)
(* there.  Preprocessing itself is the uninterpreted function Ref: what    *)
(* the same run gives with empty caches.                                   *)
(*                                                                         *)
(* RunOK / KillOK judge one observed step against the state before it.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

\* functions given as sequences of pairs
Dom(f) == {f[i][1] : i \in DOMAIN f}
At(f, k) == f[CHOOSE i \in DOMAIN f : f[i][1] = k][2]
SameFn(f, g) == Dom(f) = Dom(g) /\ \A k \in Dom(f) : At(f, k) = At(g, k)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))

\* outputs of other locations are untouched
Intact(outs, loc, snap) == \A k \in Dom(outs) \ {loc} : k \in Dom(snap) /\ At(snap, k) = At(outs, k)

RunOK(outs, r) ==
  IF ~r.ok THEN {"run fails"}
  ELSE (IF SameFn(r.out, r.ref) THEN {} ELSE {"output"})
       \cup (IF r.asked /\ r.voc # r.refvoc THEN {"vocabulary"} ELSE {})
       \cup (IF Intact(outs, r.loc, r.snap) THEN {} ELSE {"other outputs"})

\* an interrupted run leaves only complete files under final names
KillOK(outs, r) ==
  (IF \A k \in Dom(r.out) \cap Dom(r.ref) : At(r.out, k) = At(r.ref, k) THEN {} ELSE {"partial output visible"})
  \cup (IF Intact(outs, r.loc, r.snap) THEN {} ELSE {"other outputs"})

\* the reported size of a corpus is the number of its tokens and the total of its vocabulary
SizeOK(r) ==
  IF ~r.sized THEN {}
  ELSE (IF r.size = SumSeq(r.ntok) THEN {} ELSE {"size"})
       \cup (IF r.asked /\ r.size # r.voctotal THEN {"size against vocabulary"} ELSE {})
=============================================================================
