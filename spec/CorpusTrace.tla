---------------------------- MODULE CorpusTrace ----------------------------
(***************************************************************************)
(* Corpus preprocessing (C08): which files get an output, and what is in   *)
(* it.  One event per run.                                                 *)
(*   files : everything below the dataset path: [n: name (bytes), k: kind, *)
(*           toks: what the text API gives for the content, tail: the last *)
(*           lexemes of the content]                                       *)
(*   out   : the output files: [n: name, raw: bytes, dec: the line's       *)
(*           fields, decoded by the harness]                               *)
(***************************************************************************)
EXTENDS Parse, TLC, Json, IOUtils

St == INSTANCE Store

Trace == ndJsonDeserialize(IOEnv.TRACE)
UniTable == ndJsonDeserialize(IOEnv.UNI)

VARIABLE l

Suffix == <<46, 112, 114, 101, 112>>                \* .prep
WordEnd == <<60, 47, 116, 62>>                      \* </t>
Mark(e, t) == IF e.bpe THEN t \o WordEnd ELSE t

Wanted(e, f) == /\ f.k = "file"
                /\ e.all \/ \E i \in DOMAIN e.exts : EndsWith(f.n, <<46>> \o e.exts[i])

\* a file keeps its final newline in front of the end mark
EndsWithNewLine(f) == LET ts == ParseAll(f.tail) IN ts # <<>> /\ ts[Len(ts)].t = "NewLine"
Expected(e, f) ==
  f.toks \o (IF e.spaces /\ EndsWithNewLine(f) THEN <<Mark(e, <<NL>>)>> ELSE <<>>) \o <<Mark(e, EOFv)>>

OneLine(raw) == raw # <<>> /\ raw[Len(raw)] = NL /\ Cardinality({i \in DOMAIN raw : raw[i] = NL}) = 1
Content(e, f, o) ==
  LET exp == Expected(e, f) IN
  \/ o.raw = St!Join([i \in DOMAIN exp |-> St!Escape(exp[i])], SP) \o <<NL>>
  \/ OneLine(o.raw) /\ o.dec = exp

Judge(e) ==
  IF ~e.ok THEN {"raises"}
  ELSE LET wanted == {i \in DOMAIN e.files : Wanted(e, e.files[i])}
           names  == {e.files[i].n \o Suffix : i \in wanted}
           got    == {e.out[i].n : i \in DOMAIN e.out}
       IN  (IF names \subseteq got THEN {} ELSE {"missing output"})
           \cup (IF got \subseteq names THEN {} ELSE {"unexpected output"})
           \cup (IF \A i \in wanted : \A j \in DOMAIN e.out :
                      e.out[j].n = e.files[i].n \o Suffix => Content(e, e.files[i], e.out[j])
                 THEN {} ELSE {"content"})
           \cup (IF e.intact THEN {} ELSE {"source modified"})

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
             \A c \in Judge(e) : PrintT(<<"BAD", "C08", c, e.id, 0>>)
        /\ l' = l + 1

Spec == Init /\ [][Next]_l
=============================================================================
