------------------------------- MODULE CliTrace ------------------------------
(* Recorded command lines, function calls and encoded configurations. *)
EXTENDS Options, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Same(c, a) == c.tokens /\ a.tokens /\ c.d = a.d
TextVerdicts(e) ==
  LET v == CliVerdict(e.o) IN
  (IF v = "no" /\ e.cli.tokens THEN {"a command line that must be rejected gives tokens"} ELSE {})
  \cup (IF v = "yes" /\ ~e.cli.tokens THEN {"a documented command line is not accepted"} ELSE {})
  \cup (IF v # "no" /\ e.cli.tokens /\ ~Same(e.cli, e.api) THEN {"command line and function differ"} ELSE {})
  \cup (IF ApiVerdict(e.o) = "no" /\ e.api.tokens THEN {"function gives tokens for unsupported options"} ELSE {})

CorpusVerdicts(e) ==
  LET v == CliVerdict(e.o) IN
  (IF v = "no" /\ e.cli.files # <<>> THEN {"a corpus command that must be rejected writes files"} ELSE {})
  \cup (IF v = "yes" /\ (~e.cli.ok \/ e.cli.files = <<>>) THEN {"a documented corpus command fails"} ELSE {})
  \cup (IF v # "no" /\ e.cli.ok /\ (e.cli.files # e.api.files \/ ~e.api.ok) THEN {"corpus of command line and function differ"} ELSE {})
  \cup (IF v # "no" /\ e.cli.ok /\ e.wants /\ (e.cli.vocab # e.api.vocab \/ Len(e.cli.vocab) # 1) THEN {"vocabulary of command line and function differ"} ELSE {})

\* all rows with a code, together
RowVerdicts(e) ==
  LET good == {e.rows[i] : i \in {j \in DOMAIN e.rows : e.rows[j].ok /\ e.rows[j].d # ""}}
      two == {r \in good : ApiVerdict(r.o) = "yes"}
      mode == {r \in two : r.o.codes # "custom" \/ TRUE}
      probe(r) == SubSeq(r.d, 1, 1)
  IN  (IF \E i \in DOMAIN e.rows : e.rows[i].ok /\ ApiVerdict(e.rows[i].o) = "no" THEN {"a configuration is made of unsupported options"} ELSE {})
      \cup (IF \E i \in DOMAIN e.rows : ApiVerdict(e.rows[i].o) = "yes" /\ (~e.rows[i].ok \/ e.rows[i].d = "") THEN {"supported options are rejected"} ELSE {})
      \cup (IF Cardinality({r.code : r \in mode}) # Cardinality({<<r.code, Config(r.o)>> : r \in mode}) THEN {"different options, same code"} ELSE {})
      \cup (IF Cardinality({<<r.code, probe(r)>> : r \in mode}) # Cardinality({<<r.code, r.d>> : r \in mode}) THEN {"different results, same code"} ELSE {})
      \cup (IF Cardinality({<<Config(r.o), probe(r)>> : r \in mode}) # Cardinality({<<Config(r.o), r.d>> : r \in mode}) THEN {"same options, different results"} ELSE {})
      \cup (IF \E r \in good : ~r.dec \/ r.back # r.code \/ ~r.eq THEN {"a code does not decode to itself"} ELSE {})
      \cup (IF \E r \in good : r.dec /\ r.dd # r.d THEN {"a decoded configuration gives other results"} ELSE {})

DecodeVerdicts(e) ==
  LET R == {e.rows[i] : i \in DOMAIN e.rows} IN
  (IF \E r \in R : r.ok /\ r.back # r.s THEN {"a string decodes to another one"} ELSE {})
  \cup (IF \E r \in R : r.ok /\ (r.eq <=> r.s # r.t) THEN {"equality of configurations"} ELSE {})
  \cup (IF \E r \in R : r.ok /\ DecVerdict(r.s) = "no" THEN {"an invalid configuration string is accepted"} ELSE {})
  \cup (IF \E r \in R : ~r.ok /\ DecVerdict(r.s) = "yes" THEN {"a valid configuration string is rejected"} ELSE {})

LearnVerdicts(e) ==
  LET bad == e.flags.bytes \/ e.flags.wordend \/ ~e.number \/ (e.flags.legacy /\ ~e.javaOnly)
  IN  (IF bad /\ e.made # 0 THEN {"codes are learned with unsupported options"} ELSE {})
      \cup (IF ~bad /\ e.made # 1 THEN {"codes are not learned with supported options"} ELSE {})

Verdicts(e) == CASE e.kind = "text" -> TextVerdicts(e)
                 [] e.kind = "malformed" -> IF e.cli.tokens THEN {"a malformed command line gives tokens"} ELSE {}
                 [] e.kind = "corpus" -> CorpusVerdicts(e)
                 [] e.kind = "rows" -> RowVerdicts(e)
                 [] e.kind = "decode" -> DecodeVerdicts(e)
                 [] e.kind = "learn" -> LearnVerdicts(e)

Report(i) == \A v \in Verdicts(Trace[i]) : PrintT(<<"BAD", "C17", v, Trace[i].id, Trace[i].kind>>)
Init == l = 1
Next == l <= Len(Trace) /\ Report(l) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
