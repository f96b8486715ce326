----------------------------- MODULE IterTrace -----------------------------
(* Recorded iterations and metadata checks. *)
EXTENDS Iter, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Run(e) == IF e.kind = "full" THEN FullRun(e.subs, e.wb, Init0) ELSE SubRun(e.subs, e.wb, Init0)
Expected(e) == LET r == Run(e)
               IN  [i \in DOMAIN r |-> IF e.withIndex THEN <<r[i].w, r[i].v>> ELSE <<r[i].v>>]

Verdicts(e) ==
  LET n == Len(e.subs) IN
  IF e.kind = "check"
  THEN IF MustReject(n, e.wb) THEN (IF e.rejected THEN {} ELSE {"metadata check accepts wrong boundaries"})
       ELSE IF ~Consistent(n, e.wb) THEN {}
       ELSE IF e.marksUsed /\ ~MarksAgree(e.marks, e.wb) THEN (IF e.rejected THEN {} ELSE {"metadata check accepts wrong marks"})
       ELSE IF e.rejected THEN {"metadata check rejects right metadata"} ELSE {}
  ELSE IF MustReject(n, e.wb) THEN (IF e.rejected /\ e.items = <<>> THEN {} ELSE {"wrong boundaries not rejected"})
  ELSE IF ~Consistent(n, e.wb) THEN {}
  ELSE (IF e.rejected THEN {"right boundaries rejected"} ELSE IF e.items # Expected(e) THEN {"items"} ELSE {})
       \cup (IF e.exhausted THEN {} ELSE {"not exhausted at the end"})
       \cup (IF e.inputsKept THEN {} ELSE {"inputs modified"})

Report(i) == \A v \in Verdicts(Trace[i]) : PrintT(<<"BAD", "C18", v, Trace[i].id, Trace[i].kind>>)
Init == l = 1
Next == l <= Len(Trace) /\ Report(l) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
