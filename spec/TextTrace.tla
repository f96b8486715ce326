----------------------------- MODULE TextTrace -----------------------------
(***************************************************************************)
(* Recorded calls of the text API checked against the specification.       *)
(* One event per text: the lexemes the lexer reported, merge lists, and    *)
(* the calls made on the text with what they returned.  A call carries the *)
(* index `base` of the call it is judged relative to (0 = none): the call  *)
(* without filters for a filtered one, the plain one for a splitting one.  *)
(***************************************************************************)
EXTENDS Repr, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
UniTable == ndJsonDeserialize(IOEnv.UNI)

VARIABLE l

\* ------------------------------------------------ what is seen in a result
StrictlyIncreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
WellFormedBounds(toks, wb) ==
  wb # <<>> /\ wb[1] = 0 /\ wb[Len(wb)] = Len(toks) /\ StrictlyIncreasing(wb)
CutWords(toks, wb) == [i \in 1..(Len(wb) - 1) |-> SubSeq(toks, wb[i] + 1, wb[i + 1])]

MarksAgree(toks, wb) ==     \* BPE: </t> ends exactly the last token of each word
  \A i \in DOMAIN toks : EndsWith(toks[i], S_t) <=> (\E k \in DOMAIN wb : wb[k] = i)

IsSubseq(a, b) ==           \* a is a subsequence of b
  LET RECURSIVE Go(_, _)
      Go(i, j) == IF i > Len(a) THEN TRUE
                  ELSE IF j > Len(b) THEN FALSE
                  ELSE IF a[i] = b[j] THEN Go(i + 1, j + 1) ELSE Go(i, j + 1)
  IN Go(1, 1)

\* the property C01 itself, on the observed tokens and the lexer's output only
CountOLC(lex) == Len(SelectSeq(lex, LAMBDA x : ParseLexeme(x) # <<>> /\ ParseLexeme(x)[1].t = "OLC"))
Canon(s) == Lower(NonBlanks(s))
LosslessTokens(lex, toks, eof) ==
  LET body == IF eof /\ toks # <<>> THEN SubSeq(toks, 1, Len(toks) - 1) ELSE toks
      noEol == SelectSeq(body, LAMBDA t : t # S_EOL)
      text == NonBlanks(CatAll(MapSeq(LAMBDA x : x.v, lex)))
  IN  /\ (eof => toks # <<>> /\ toks[Len(toks)] = EOFv)
      /\ Canon(CatAll(noEol)) = Canon(text)
      /\ Len(SelectSeq(body, LAMBDA t : t = S_EOL)) =
           CountOLC(lex)
      /\ \A i \in DOMAIN toks : ~(\E k \in DOMAIN toks[i] : toks[i][k] = SP)

Unfilt(cfg) == cfg.com /\ cfg.str /\ cfg.max = 0 /\ cfg.spaces /\ cfg.unicode

\* ----------------------------------------------------------------- verdicts
Owner(cfg) == IF ~Unfilt(cfg) THEN "C04"
              ELSE IF cfg.mode \in {"no", "full"} THEN "C01"
              ELSE IF cfg.mode \in {"basic", "num", "ronin", "stem"} THEN "C03" ELSE "C05"

Judge(e, call, words, baseOk) ==
  LET cfg == call.cfg
      out == call.out
      exp == OutTokens(words, cfg)
      same == out.toks = exp
      cut == CutWords(out.toks, out.wb)
      expCut == MapSeq(LAMBDA w : IF cfg.mode = "bpe" THEN MarkEnd(w.toks) ELSE w.toks, words)
      atoms == MapCat(LAMBDA w : IF w.np # {} /\ Len(w.toks) = 1
                                 THEN <<IF cfg.mode = "bpe" THEN MarkEnd(w.toks) ELSE w.toks>> ELSE <<>>, words)
      np == {out.np[i] : i \in DOMAIN out.np}
      wf == WellFormedBounds(out.toks, out.wb)
      onlyAtomsDiffer == /\ wf /\ Len(cut) = Len(words)
                         /\ \A i \in DOMAIN words : cut[i] # expCut[i] => words[i].np # {}
  IN  IF ~out.ok THEN (IF baseOk THEN {<<Owner(cfg), "raises">>} ELSE {})
      ELSE
        (IF baseOk /\ ~same /\ ~(Owner(cfg) \in {"C03", "C05"} /\ onlyAtomsDiffer)
           THEN {<<Owner(cfg), "tokens">>} ELSE {})
        \cup (IF cfg.mode = "no" /\ Unfilt(cfg) /\ ~LosslessTokens(e.lex, out.toks, call.eof)
                THEN {<<"C01", "lossless">>} ELSE {})
        \cup (IF ~wf THEN {<<"C02", "bounds">>} ELSE {})
        \cup (IF Len(out.ty) # Len(out.wb) - 1 THEN {<<"C02", "type-count">>} ELSE {})
        \cup (IF cfg.mode = "bpe" /\ wf /\ ~MarksAgree(out.toks, out.wb)
                 /\ (\A i \in DOMAIN exp : EndsWith(exp[i], S_t) <=> (\E k \in DOMAIN OutBounds(words) : OutBounds(words)[k] = i))
                THEN {<<"C02", "word-end marks">>} ELSE {})
        \cup (IF same /\ wf /\ out.wb # OutBounds(words) THEN {<<"C02", "exact bounds">>} ELSE {})
        \cup (IF same /\ out.ty # OutTypes(words) THEN {<<"C02", "types">>} ELSE {})
        \cup (IF baseOk /\ wf /\ ~IsSubseq(atoms, cut) THEN {<<"C06", "atomic">>} ELSE {})
        \cup (IF same /\ np # OutNonProc(words) THEN {<<"C06", "nonprocessable">>} ELSE {})
        \cup (IF ~same /\ wf /\ ~(np \subseteq ({out.toks[i] : i \in DOMAIN out.toks}
                                   \cup {SubSeq(out.toks[i], 1, Len(out.toks[i]) - 4) : i \in {k \in DOMAIN out.toks : EndsWith(out.toks[k], S_t)}}))
                THEN {<<"C06", "nonprocessable-not-in-output">>} ELSE {})

Verdicts(e) ==
  LET plain == ParseText(e.lex, FALSE)
      withEof == Append(plain, EofTok)
      tables == [i \in DOMAIN e.merges |-> MergeTable(e.merges[i])]
      words == [c \in DOMAIN e.calls |->
                  LET call == e.calls[c]
                  IN  ReprWords(IF call.eof THEN withEof ELSE plain, call.cfg,
                                IF call.m = 0 THEN NoMerges ELSE tables[call.m])]
      conf == [c \in DOMAIN e.calls |->
                 e.calls[c].out.ok /\ e.calls[c].out.toks = OutTokens(words[c], e.calls[c].cfg)]
  IN  UNION {LET call == e.calls[c]
                 baseOk == IF call.base = 0 THEN TRUE ELSE conf[call.base]
             IN  {<<v[1], v[2], c>> : v \in Judge(e, call, words[c], baseOk)} : c \in DOMAIN e.calls}

Report(i) == \A v \in Verdicts(Trace[i]) : PrintT(<<"BAD", v[1], v[2], Trace[i].id, v[3]>>)

Init == l = 1
Next == l <= Len(Trace) /\ Report(l) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
