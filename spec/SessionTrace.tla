---------------------------- MODULE SessionTrace ----------------------------
(* Recorded histories of text-API calls in one process.                    *)
EXTENDS Session, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Op(c) == [m |-> c.m, id |-> c.id, force |-> c.force, fail |-> c.fail]

Verdicts(e) ==
  LET ops == [i \in DOMAIN e.calls |-> Op(e.calls[i])]
  IN  UNION {LET c == e.calls[i]
             IN  (IF Determined(LoadedAfter(ops, i - 1), ops[i]) /\ c.out # c.ref THEN {<<"result differs from a fresh process", i>>} ELSE {})
                 \cup (IF c.before # c.after THEN {<<"earlier result changed", i>>} ELSE {})
                 \cup (IF ~c.repeat THEN {<<"repeated call not equal", i>>} ELSE {})
             : i \in DOMAIN e.calls}

Report(i) == \A v \in Verdicts(Trace[i]) : PrintT(<<"BAD", "C07", v[1], Trace[i].id, v[2]>>)
Init == l = 1
Next == l <= Len(Trace) /\ Report(l) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
