----------------------------- MODULE PipelineMC -----------------------------
(***************************************************************************)
(* The caching scheme of corpus preprocessing as a state machine, with     *)
(* crashes, checked against the contract: a completed run gives what a run *)
(* with empty caches gives, and no partial file ever has a final name.     *)
(*                                                                         *)
(* Files f (in the root) and g (in a sub-directory) have versions; every   *)
(* edit takes a new clock value as the time of what it touches.  Caches    *)
(* are keyed by the latest time over the entities in Counted, the          *)
(* requested files, and (outputs) the options.                             *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Counted,      \* entities whose times make up the key
          Options,      \* option sets
          MaxEdits, MaxRuns, MaxCrashes

Files == {"f", "g"}
Entities == {"root", "sub", "f", "g"}
Requests == {{"f", "g"}, {"f"}}
Absent == 0

VARIABLES
  content,      \* file -> version, Absent if it does not exist
  mtime,        \* entity -> time
  clock, edits, runs, crashes,
  parsed,       \* key -> file -> [st, v] : "no", "part", "done"
  parsedReady,  \* keys
  prep,         \* <<key, options>> -> the same
  prepReady,
  run           \* the run in progress: [pc, key, opt, todo]

vars == <<content, mtime, clock, edits, runs, crashes, parsed, parsedReady, prep, prepReady, run>>
Idle == [pc |-> "idle"]
Nothing == [f \in Files |-> [st |-> "no", v |-> Absent]]
Get(fn, k) == IF k \in DOMAIN fn THEN fn[k] ELSE Nothing
Put(fn, k, x) == [j \in DOMAIN fn \cup {k} |-> IF j = k THEN x ELSE fn[j]]

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Exists(e) == e \in Files => content[e] # Absent
Key(req) == <<Max({mtime[e] : e \in {x \in Counted : Exists(x)}} \cup {0}), req>>
Wanted(req) == {f \in req : content[f] # Absent}

Init == /\ content = [f \in Files |-> 1] /\ mtime = [e \in Entities |-> 1]
        /\ clock = 1 /\ edits = 0 /\ runs = 0 /\ crashes = 0
        /\ parsed = <<>> /\ parsedReady = {} /\ prep = <<>> /\ prepReady = {}
        /\ run = Idle

Dir(f) == IF f = "f" THEN "root" ELSE "sub"

Edit(f, kind) ==
  /\ run = Idle /\ edits < MaxEdits
  /\ edits' = edits + 1 /\ clock' = clock + 1
  /\ CASE kind = "modify" -> /\ content[f] # Absent
                             /\ content' = [content EXCEPT ![f] = clock + 1]
                             /\ mtime' = [mtime EXCEPT ![f] = clock + 1]
       [] kind = "add"    -> /\ content[f] = Absent
                             /\ content' = [content EXCEPT ![f] = clock + 1]
                             /\ mtime' = [mtime EXCEPT ![f] = clock + 1, ![Dir(f)] = clock + 1]
       [] kind = "movein" -> /\ content[f] = Absent           \* an old file is moved in
                             /\ content' = [content EXCEPT ![f] = clock + 1]
                             /\ mtime' = [mtime EXCEPT ![f] = 1, ![Dir(f)] = clock + 1]
       [] kind = "delete" -> /\ content[f] # Absent
                             /\ content' = [content EXCEPT ![f] = Absent]
                             /\ mtime' = [mtime EXCEPT ![Dir(f)] = clock + 1]
  /\ UNCHANGED <<runs, crashes, parsed, parsedReady, prep, prepReady, run>>

Start(req, o) ==
  /\ run = Idle /\ runs < MaxRuns /\ Wanted(req) # {}
  /\ runs' = runs + 1
  /\ LET k == Key(req) IN
       run' = [pc |-> IF k \in parsedReady THEN "preparing" ELSE "parsing", key |-> k, req |-> req, opt |-> o,
               todo |-> Wanted(req)]
  /\ UNCHANGED <<content, mtime, clock, edits, crashes, parsed, parsedReady, prep, prepReady>>

ParseStep ==
  /\ run.pc = "parsing"
  /\ IF run.todo = {}
     THEN /\ parsedReady' = parsedReady \cup {run.key}
          /\ run' = [run EXCEPT !.pc = "preparing", !.todo = Wanted(run.req)]
          /\ UNCHANGED parsed
     ELSE \E f \in run.todo :
          LET x == Get(parsed, run.key) IN
          /\ parsed' = IF x[f].st = "done" THEN parsed
                       ELSE Put(parsed, run.key, [x EXCEPT ![f] = [st |-> IF x[f].st = "no" THEN "part" ELSE "done", v |-> content[f]]])
          /\ run' = IF x[f].st = "no" THEN run ELSE [run EXCEPT !.todo = @ \ {f}]
          /\ UNCHANGED parsedReady
  /\ UNCHANGED <<content, mtime, clock, edits, runs, crashes, prep, prepReady>>

PrepStep ==
  /\ run.pc = "preparing"
  /\ LET k == <<run.key, run.opt>> IN
     IF k \in prepReady \/ run.todo = {}
     THEN /\ prepReady' = prepReady \cup {k}
          /\ run' = [run EXCEPT !.pc = "done"]
          /\ UNCHANGED prep
     ELSE \E f \in run.todo :
          LET x == Get(prep, k)
              v == Get(parsed, run.key)[f].v IN
          /\ prep' = IF x[f].st = "done" THEN prep
                     ELSE Put(prep, k, [x EXCEPT ![f] = [st |-> IF x[f].st = "no" THEN "part" ELSE "done", v |-> v]])
          /\ run' = IF x[f].st = "no" THEN run ELSE [run EXCEPT !.todo = @ \ {f}]
          /\ UNCHANGED prepReady
  /\ UNCHANGED <<content, mtime, clock, edits, runs, crashes, parsed, parsedReady>>

Finish == run.pc = "done" /\ run' = Idle
          /\ UNCHANGED <<content, mtime, clock, edits, runs, crashes, parsed, parsedReady, prep, prepReady>>

Crash == /\ run.pc \in {"parsing", "preparing"} /\ crashes < MaxCrashes
         /\ crashes' = crashes + 1 /\ run' = Idle
         /\ UNCHANGED <<content, mtime, clock, edits, runs, parsed, parsedReady, prep, prepReady>>

Next == \/ \E f \in Files, k \in {"modify", "add", "movein", "delete"} : Edit(f, k)
        \/ \E r \in Requests, o \in Options : Start(r, o)
        \/ ParseStep \/ PrepStep \/ Finish \/ Crash
Spec == Init /\ [][Next]_vars

\* a completed run has exactly the wanted files, with their current versions
Contract ==
  run.pc = "done" =>
    LET x == Get(prep, <<run.key, run.opt>>) IN
    \A f \in Files : IF f \in Wanted(run.req) THEN x[f] = [st |-> "done", v |-> content[f]]
                     ELSE x[f].st # "done"
=============================================================================
