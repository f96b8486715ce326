--------------------------- MODULE PipelineTrace ---------------------------
(* Recorded histories of runs, kills and edits against Pipeline.tla (C10, C11, C13, C19). *)
EXTENDS Pipeline, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, outs

Prop(c, e) == IF c \in {"size", "size against vocabulary"} THEN "C19"
              ELSE IF c = "partial output visible" THEN "C11"
              ELSE IF e.after = "kill" THEN (IF c = "vocabulary" \/ e.killvoc THEN "C13" ELSE "C11")
              ELSE "C10"

Bad(e) == CASE e.op = "run"  -> RunOK(outs, e) \cup SizeOK(e)
            [] e.op = "kill" -> KillOK(outs, e)
            [] OTHER -> {}

Init == l = 1 /\ outs = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
             /\ \A c \in Bad(e) : PrintT(<<"BAD", Prop(c, e), c, e.id, e.n>>)
             /\ outs' = IF e.op \in {"run", "kill"} THEN e.snap ELSE IF e.op = "restore" THEN e.snap ELSE IF e.op = "reset" THEN <<>> ELSE outs
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, outs>>
=============================================================================
