----------------------------- MODULE StoreTrace -----------------------------
(* Recorded writes and reads: `written` and `back` are the same data before and after, raw the file in between. *)
EXTENDS Store, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

LineBreaks == {11, 12, 13, 28, 29, 30, 133, 8232, 8233}
Verdicts(e) ==
  IF e.raised THEN {"raises"} ELSE
  (IF e.written # e.back THEN {"read back differs"} ELSE {})
  \cup (IF e.raw = <<>> /\ e.written = <<>> THEN {}
        ELSE IF ~EndsLine(e.raw) THEN {"last record does not end its line"}
        ELSE LET rs == Records(e.raw) IN
             (IF Len(rs) # e.nrec THEN {"records and lines differ in number"} ELSE {})
             \cup (IF \E i \in DOMAIN e.raw : e.raw[i] \in LineBreaks THEN {"line break inside a record"} ELSE {})
             \cup (IF Len(rs) = e.nrec /\ e.fields # <<>> /\ \E i \in DOMAIN rs : Len(Cut(rs[i], e.delim)) # e.fields[i]
                   THEN {"fields of a record"} ELSE {})
             \cup (IF e.delim2 # 0 /\ Len(rs) = e.nrec /\ \E i \in DOMAIN rs : LET f == Cut(rs[i], e.delim) IN
                        Len(f) < 2 \/ Len(Cut(f[2], e.delim2)) # e.fields2[i] THEN {"parts of a field"} ELSE {}))

Report(i) == \A v \in Verdicts(Trace[i]) : PrintT(<<"BAD", "C09", v, Trace[i].id, Trace[i].kind>>)
Init == l = 1
Next == l <= Len(Trace) /\ Report(l) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
