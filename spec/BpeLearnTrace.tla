--------------------------- MODULE BpeLearnTrace ---------------------------
(***************************************************************************)
(* Recorded learning runs.  An event has the base vocabulary and a list of *)
(* parts: learning `n` merges starting from where the previous part ended  *)
(* (one part: a run from scratch).  Each part lists the merges with their  *)
(* frequencies, the segmentation reached, the subword counts, the cache of *)
(* encoded words, and what encoding with all merges so far gives.          *)
(***************************************************************************)
EXTENDS BpeLearn, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
UniTable == <<>>
VARIABLE l

\* segmentation as a set of [s, f]; a base vocabulary has no word twice
RECURSIVE Parts(_, _, _, _)
Parts(e, voc, k, done) ==
  IF k > Len(e.parts) THEN {}
  ELSE LET q == e.parts[k]
           r == Replay(voc, q.merges, {})
           all == done \o q.merges
           list == List(all)
           syms == Symbols(r.voc)
       IN  r.bad
           \cup (IF Len(q.merges) > q.n THEN {"too many merges"} ELSE {})
           \cup (IF Len(q.merges) < q.n /\ AllPairs(r.voc) # {} THEN {"stops although a pair is left"} ELSE {})
           \cup (IF Set(q.voc) # Set(r.voc) \/ Len(q.voc) # Len(r.voc) THEN {"segmentation"} ELSE {})
           \cup (IF \E i \in DOMAIN e.base : q.enc[i] # Enc(e.base[i].w, list) THEN {"encoding with the learned merges"} ELSE {})
           \cup (IF \E i \in DOMAIN e.base : [s |-> q.enc[i], f |-> e.base[i].f] \notin Set(q.voc)
                 THEN {"segmentation differs from encoding"} ELSE {})
           \cup (IF q.counts # <<>> /\ ({q.counts[i].y : i \in DOMAIN q.counts} # syms \/ Len(q.counts) # Cardinality(syms)
                    \/ \E i \in DOMAIN q.counts : q.counts[i].n # SymCount(r.voc, q.counts[i].y)) THEN {"subword vocabulary"} ELSE {})
           \cup (IF q.cache # <<>> /\ Set(q.cache) # {[k |-> JoinSyms(r.voc[i].s), v |-> r.voc[i].s] : i \in DOMAIN r.voc} THEN {"cache of encoded words"} ELSE {})
           \cup Parts(e, r.voc, k + 1, all)

Verdicts(e) == IF ~e.ok THEN {"raises"} ELSE Parts(e, StartVoc(e.base), 1, <<>>)
Report(i) == \A v \in Verdicts(Trace[i]) : PrintT(<<"BAD", "C14", v, Trace[i].id, 0>>)
Init == l = 1
Next == l <= Len(Trace) /\ Report(l) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
