----------------------------- MODULE SessionMC -----------------------------
(***************************************************************************)
(* The implementation's state (BPE data with a cache of encoded words, the *)
(* lists handed out to callers) against the abstract session.  Also prints *)
(* every history of length Depth, to be replayed into the real code.       *)
(***************************************************************************)
EXTENDS Session, TLC

CONSTANTS Depth, Emit
VARIABLES loaded, data, cache, given, hist, ok

vars == <<loaded, data, cache, given, hist, ok>>

Ids == {"A", "B", "0"}
Op(m, i, force, fail) == [m |-> m, id |-> i, force |-> force, fail |-> fail]
Ops == << Op("plain", "-", TRUE, "no"), Op("plain", "-", TRUE, "early"),
          Op("bpe", "A", TRUE, "no"), Op("bpe", "A", FALSE, "no"), Op("bpe", "B", TRUE, "no"), Op("bpe", "B", FALSE, "no"),
          Op("bpe", "0", TRUE, "no"), Op("bpe", "-", FALSE, "early"),
          Op("bpe", "A", TRUE, "load"), Op("bpe", "A", FALSE, "load"),
          Op("mutate", "-", TRUE, "no") >>

\* what the word of a call is encoded as: the codes used, and whether the value is intact
Value(i) == [by |-> i, intact |-> TRUE]

\* loading replaces data and cache together, only when it succeeds
Loads(op) == UsesBpe(op) /\ op.fail # "early" /\ (op.force \/ data = None)
NewData(op) == IF Loads(op) /\ op.fail = "no" THEN op.id ELSE data
NewCache(op) == IF Loads(op) /\ op.fail = "no" THEN Value(op.id) ELSE cache

Result(op) == IF UsesBpe(op) THEN NewCache(op) ELSE Value("plain")
Ref(op) == IF UsesBpe(op) THEN Value(op.id) ELSE Value("plain")

Init == loaded = None /\ data = None /\ cache = Value(None) /\ given = <<>> /\ hist = <<>> /\ ok = TRUE

Do(k) ==
  LET op == Ops[k] IN
  /\ Len(hist) < Depth
  /\ op.m = "mutate" => given # <<>>
  /\ hist' = Append(hist, k)
  /\ loaded' = After(loaded, op)
  /\ data' = NewData(op)
  /\ cache' = NewCache(op)
  /\ given' = IF op.m = "mutate" THEN [given EXCEPT ![Len(given)].intact = FALSE]
              ELSE IF op.fail = "no" THEN Append(given, Result(op)) ELSE given
  /\ ok' = (Determined(loaded, op) => Result(op) = Ref(op))

Next == \E k \in DOMAIN Ops : Do(k)
Spec == Init /\ [][Next]_vars

FunctionOfArguments == ok
Refines == loaded \in Ids => data = loaded
NothingLoaded == loaded = None => data = None
CacheIntact == cache.intact
EmitHist == (Emit /\ Len(hist) = Depth) => PrintT(<<"HIST", hist>>)
=============================================================================
