----------------------------- MODULE CodesTrace -----------------------------
(***************************************************************************)
(* Recorded histories of learn-bpe runs and look-ups of ids (C15, C16,     *)
(* C20), judged against Registry.tla (what is in the registry) and         *)
(* BpeLearn.tla (which merges are right).  reg is the registry as observed *)
(* after the previous step of the same history.                            *)
(***************************************************************************)
EXTENDS BpeLearn, TLC, Json, IOUtils
R == INSTANCE Registry
Trace == ndJsonDeserialize(IOEnv.TRACE)
UniTable == <<>>
VARIABLES l, reg

Obs(e) == [k \in {e.obs[i].key : i \in DOMAIN e.obs} |->
             LET o == CHOOSE o \in Set(e.obs) : o.key = k
             IN  [id |-> o.id, lists |-> {[n |-> o.lists[i].n, m |-> o.lists[i].merges] : i \in DOMAIN o.lists}]]
Raw(e, k, n) == LET o == CHOOSE o \in Set(e.obs) : o.key = k IN CHOOSE q \in Set(o.lists) : q.n = n

----------------------------------------------------------------------------
\* a learned list q, made by a run asked for n merges when the lists were `old`; base: the base vocabulary
Vocab(base, other) == StartVoc(base) \o [i \in DOMAIN other |-> [s |-> <<JoinSyms(StartSymbols(other[i].w))>>, f |-> other[i].f]]
RECURSIVE Segment(_, _)
Segment(voc, ms) == IF ms = <<>> THEN voc ELSE Segment(ApplyAll(voc, ms[1].p), Tail(ms))

NewList(e, old, q) ==
  LET start == R!Longest(old, e.ask)
      pre   == start.m
      k     == Len(pre)
  IN  (IF q.n # Len(q.merges) THEN {"directory not named after the number of merges"} ELSE {})
      \cup (IF Len(q.merges) > e.ask THEN {"too many merges"} ELSE {})
      \cup (IF Len(q.merges) < k \/ SubSeq(q.merges, 1, k) # pre THEN {"longest list not kept as prefix"}
            ELSE IF ~e.hasvoc THEN {"base vocabulary unreadable"}
            ELSE LET seg == Segment(StartVoc(e.disk), pre)
                     r   == Replay(seg, SubSeq(q.merges, k + 1, Len(q.merges)), {})
                     all == r.voc \o Vocab(<<>>, e.other)
                     syms == Symbols(all)
                 IN  r.bad
                     \cup (IF Len(q.merges) < e.ask /\ AllPairs(r.voc) # {} THEN {"stops although a pair is left"} ELSE {})
                     \cup (IF Set(q.voc) # Set(all) \/ Len(q.voc) # Len(all) THEN {"segmentation"} ELSE {})
                     \cup (IF {q.counts[i].y : i \in DOMAIN q.counts} # syms \/ Len(q.counts) # Cardinality(syms)
                              \/ \E i \in DOMAIN q.counts : q.counts[i].n # SymCount(all, q.counts[i].y) THEN {"subword vocabulary"} ELSE {})
                     \cup (IF Set(q.cache) # {[k |-> JoinSyms(all[i].s), v |-> all[i].s] : i \in DOMAIN all} THEN {"cache of encoded words"} ELSE {}))

\* C15: the lists of all codes
Complete(e) == \A i \in DOMAIN e.obs : \A j \in DOMAIN e.obs[i].lists : e.obs[i].lists[j].ok
Lists(e, now) ==
  LET was  == R!Of(reg, e.key)
      is   == R!Of(now, e.key)
      new  == {x \in is.lists : x \notin was.lists}
      turned == R!Rejected(R!IdsOf([k \in DOMAIN reg \ {e.key} |-> reg[k]]), was.id, e.wanted, e.want)
      there == {x \in was.lists : x.n = e.ask}
  IN  (IF Complete(e) THEN {} ELSE {"incomplete result"})
      \cup (IF \A k \in DOMAIN reg \ {e.key} : R!Of(now, k).lists = reg[k].lists THEN {} ELSE {"lists of other codes changed"})
      \cup (IF \A k \in DOMAIN now \ ({e.key} \cup DOMAIN reg) : now[k].lists = {} THEN {} ELSE {"result in another place"})
      \cup (IF was.lists \subseteq is.lists THEN {} ELSE {"learned list changed or removed"})
      \cup (IF \E i \in DOMAIN e.obs : \E j \in DOMAIN e.obs[i].lists :
                 ~e.obs[i].lists[j].same /\ [n |-> e.obs[i].lists[j].n, m |-> e.obs[i].lists[j].merges] \in R!Of(reg, e.obs[i].key).lists
            THEN {"learned list changed or removed"} ELSE {})
      \cup (IF Cardinality(new) > 1 THEN {"several results of one run"} ELSE {})
      \cup (IF there # {} /\ new # {} THEN {"learned again"} ELSE {})
      \cup (IF turned \/ e.killed \/ new # {} THEN {}
            \* nothing new: there was nothing to add
            ELSE IF ~e.ok THEN {"run fails"}
            ELSE IF there # {} THEN {}
            ELSE IF ~e.hasvoc THEN {"base vocabulary unreadable"}
            ELSE IF \E x \in was.lists : x.n < e.ask /\ AllPairs(Segment(StartVoc(e.disk), x.m)) = {} THEN {}
            ELSE {"no result"})
      \cup (IF ~Complete(e) THEN {} ELSE UNION {NewList(e, was.lists, Raw(e, e.key, x.n)) : x \in new})

\* C16: the ids of all codes
Ids(e, now) ==
  LET was    == R!Of(reg, e.key)
      is     == R!Of(now, e.key)
      others == R!IdsOf([k \in DOMAIN reg \ {e.key} |-> reg[k]])
      turned == R!Rejected(others, was.id, e.wanted, e.want)
  IN  (IF \A k \in DOMAIN reg \ {e.key} : R!Of(now, k).id = reg[k].id THEN {} ELSE {"id of other codes changed"})
      \cup (IF \A k \in DOMAIN now \ ({e.key} \cup DOMAIN reg) : now[k].id = R!NoId THEN {} ELSE {"id in another place"})
      \cup (IF \/ R!IdOK(others, was.id, e.base, e.wanted, e.want, is.id)
               \/ (e.killed \/ ~e.ok) /\ is.id = was.id
            THEN {} ELSE {"id"})
      \cup (IF turned /\ is.lists # was.lists THEN {"learned although the id is taken"} ELSE {})
      \cup (IF \E a, b \in DOMAIN now : a # b /\ now[a].id = now[b].id /\ now[a].id # R!NoId THEN {"id used twice"} ELSE {})
      \cup (IF is.lists # {} /\ is.id = R!NoId THEN {"codes without an id"} ELSE {})

\* C20: the vocabularies that BPE was learned from
VocSet(v) == {[w |-> v[i].w, f |-> v[i].f] : i \in DOMAIN v}
Same(a, b) == VocSet(a) = VocSet(b) /\ Len(a) = Len(b)
Vocabs(e, now) ==
  IF ~e.judgevoc \/ R!Of(now, e.key).lists = {} THEN {}
  ELSE IF ~e.hasvoc THEN {"vocabulary unreadable"}
  ELSE (IF Set(e.non) = Set(e.truenon) /\ Len(e.non) = Cardinality(Set(e.non)) THEN {} ELSE {"non-BPE vocabulary"})
       \cup (IF Same(e.voc, e.truevoc) THEN {} ELSE {"vocabulary of the dataset"})
       \cup (LET non  == {JoinSyms(StartSymbols(w)) : w \in Set(e.truenon)}
                 fresh == {q \in Set((CHOOSE o \in Set(e.obs) : o.key = e.key).lists) : q.ok /\ ~q.same}
                 want == {[s |-> JoinSyms(StartSymbols(e.truevoc[i].w)), f |-> e.truevoc[i].f] : i \in DOMAIN e.truevoc}
             IN  IF \A q \in fresh : /\ {[s |-> JoinSyms(q.voc[i].s), f |-> q.voc[i].f] : i \in DOMAIN q.voc} = want
                                     /\ Len(q.voc) = Len(e.truevoc)
                                     /\ \A i \in DOMAIN q.voc : JoinSyms(q.voc[i].s) \in non => Len(q.voc[i].s) = 1
                 THEN {} ELSE {"vocabulary that BPE was learned from"})

----------------------------------------------------------------------------
WordEndMark == <<60, 47, 116, 62>>
Pairs(ms) == [i \in DOMAIN ms |-> ms[i].p]
Mark(toks) == [i \in DOMAIN toks |-> IF i = Len(toks) THEN toks[i] \o WordEndMark ELSE toks[i]]
Look(e, q) ==
  IF R!Resolvable(reg, q.s)
  THEN IF ~q.ok THEN {"id not resolved"}
       ELSE LET t == MergeTable(Pairs(R!Resolved(reg, q.s)))
            IN  IF Len(q.ans) = Len(e.words) /\ \A i \in DOMAIN e.words : q.ans[i] = Mark(Encode(e.words[i], t)) THEN {} ELSE {"resolved to other merges"}
  ELSE IF q.ok THEN {"resolved although it should be rejected"}
  ELSE IF q.err # "InvalidBpeCodesIdError" THEN {"rejected with another error"} ELSE {}
Looks(e) == IF ~e.ran THEN {"look-up fails"} ELSE UNION {Look(e, e.res[i]) : i \in DOMAIN e.res}

Load(e) == IF ~e.ok THEN {"vocabularies cannot be loaded"}
           ELSE (IF Same(e.all, e.truevoc) THEN {} ELSE {"loaded vocabulary"})
                \cup (IF Set(e.non) = Set(e.truenon) THEN {} ELSE {"loaded non-BPE vocabulary"})
                \cup (IF VocSet(e.base) = {x \in VocSet(e.truevoc) : x.w \notin Set(e.truenon)} THEN {} ELSE {"loaded base vocabulary"})
                \cup (IF e.bpesame THEN {} ELSE {"loaded subword vocabulary"})

Say(e, p, bad) == \A c \in bad : PrintT(<<"BAD", p, c, e.id, e.n>>)
Judge(e) ==
  CASE e.op = "learn" -> LET now == Obs(e) IN Say(e, "C15", Lists(e, now)) /\ Say(e, "C16", Ids(e, now)) /\ Say(e, "C20", Vocabs(e, now))
    [] e.op = "look"  -> Say(e, "C16", Looks(e))
    [] e.op = "load"  -> Say(e, "C20", Load(e))
    [] OTHER -> TRUE

Init == l = 1 /\ reg = <<>>
Next == /\ l <= Len(Trace)
        /\ Judge(Trace[l])
        /\ reg' = (CASE Trace[l].op = "start" -> <<>> [] Trace[l].op = "learn" -> Obs(Trace[l]) [] OTHER -> reg)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, reg>>
=============================================================================
