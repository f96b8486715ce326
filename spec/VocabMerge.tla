----------------------------- MODULE VocabMerge -----------------------------
(***************************************************************************)
(* Merging partial vocabularies with several processes (C12).              *)
(*                                                                         *)
(* A partial vocabulary is the bag of the files counted in it.  Chunk c    *)
(* starts with Size[c] partial vocabularies in the queue tasks[c]; the     *)
(* ticket queue holds Size[c] - 1 tickets for each chunk and then one stop *)
(* mark per merger.  A merger with a ticket for c takes two partial        *)
(* vocabularies from tasks[c], merges them and puts the result back.  The  *)
(* merger whose stop mark is the last one adds the chunks up.  A put is    *)
(* delivered some time after it was made (Deliver).                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Sizes,        \* the sequences of chunk sizes to start from
          Mergers       \* 1..n

VARIABLES size, tasks, tickets, mode, have, have2, chunk, running, inflight, result, sched
vars == <<size, tasks, tickets, mode, have, have2, chunk, running, inflight, result, sched>>

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
NFiles == SumTo(size, Len(size))
Files == 1..NFiles
Zero == [f \in Files |-> 0]
One(f) == [g \in Files |-> IF g = f THEN 1 ELSE 0]
Add(a, b) == [f \in Files |-> a[f] + b[f]]

RECURSIVE Tickets(_, _)
Tickets(s, c) == IF c > Len(s) THEN <<>> ELSE [i \in 1..(s[c] - 1) |-> c] \o Tickets(s, c + 1)

Init == \E s \in Sizes :
  /\ size = s
  /\ tasks = [c \in 1..Len(s) |-> [i \in 1..s[c] |-> [g \in 1..SumTo(s, Len(s)) |-> IF g = SumTo(s, c - 1) + i THEN 1 ELSE 0]]]
  /\ tickets = Tickets(s, 1) \o [m \in Mergers |-> 0]
  /\ mode = [m \in Mergers |-> "idle"]
  /\ have = [m \in Mergers |-> <<>>] /\ have2 = [m \in Mergers |-> <<>>]
  /\ chunk = [m \in Mergers |-> 0]
  /\ running = Cardinality(Mergers)
  /\ inflight = {}
  /\ result = <<>>
  /\ sched = <<>>

\* the merger gets a ticket or a stop mark
Ticket(m) == /\ mode[m] = "idle" /\ tickets # <<>>
             /\ tickets' = Tail(tickets)
             /\ chunk' = [chunk EXCEPT ![m] = tickets[1]]
             /\ mode' = [mode EXCEPT ![m] = IF tickets[1] = 0 THEN "stop" ELSE "first"]
             /\ UNCHANGED <<size, tasks, have, have2, running, inflight, result>>

First(m) == /\ mode[m] = "first" /\ tasks[chunk[m]] # <<>>
            /\ have' = [have EXCEPT ![m] = tasks[chunk[m]][1]]
            /\ tasks' = [tasks EXCEPT ![chunk[m]] = Tail(@)]
            /\ mode' = [mode EXCEPT ![m] = "second"]
            /\ UNCHANGED <<size, tickets, have2, chunk, running, inflight, result>>

Second(m) == /\ mode[m] = "second" /\ tasks[chunk[m]] # <<>>
             /\ have2' = [have2 EXCEPT ![m] = tasks[chunk[m]][1]]
             /\ tasks' = [tasks EXCEPT ![chunk[m]] = Tail(@)]
             /\ mode' = [mode EXCEPT ![m] = "put"]
             /\ UNCHANGED <<size, tickets, have, chunk, running, inflight, result>>

Put(m) == /\ mode[m] = "put"
          /\ inflight' = inflight \cup {<<m, chunk[m], Add(have[m], have2[m])>>}
          /\ have' = [have EXCEPT ![m] = <<>>] /\ have2' = [have2 EXCEPT ![m] = <<>>]
          /\ mode' = [mode EXCEPT ![m] = "idle"]
          /\ UNCHANGED <<size, tasks, tickets, chunk, running, result>>

\* one delivery may overtake another of another merger, but not of the same merger: a merger has one in flight at a time
\* unless it was fast, in which case both orders give the same bag
DeliverOne == \E d \in inflight :
             /\ tasks' = [tasks EXCEPT ![d[2]] = Append(@, d[3])]
             /\ inflight' = inflight \ {d}
             /\ UNCHANGED <<size, tickets, mode, have, have2, chunk, running, result>>
Deliver == DeliverOne /\ UNCHANGED sched

Stop(m) == /\ mode[m] = "stop"
           /\ running' = running - 1
           /\ IF running = 1
              THEN mode' = [mode EXCEPT ![m] = "finish"] /\ have' = [have EXCEPT ![m] = Zero] /\ chunk' = [chunk EXCEPT ![m] = 1]
              ELSE mode' = [mode EXCEPT ![m] = "ended"] /\ UNCHANGED <<have, chunk>>
           /\ UNCHANGED <<size, tasks, tickets, have2, inflight, result>>

Finish(m) == /\ mode[m] = "finish"
             /\ IF chunk[m] > Len(size)
                THEN /\ result' = have[m]
                     /\ mode' = [mode EXCEPT ![m] = "ended"]
                     /\ have' = [have EXCEPT ![m] = <<>>]
                     /\ UNCHANGED <<tasks, chunk>>
                ELSE /\ tasks[chunk[m]] # <<>>
                     /\ have' = [have EXCEPT ![m] = Add(@, tasks[chunk[m]][1])]
                     /\ tasks' = [tasks EXCEPT ![chunk[m]] = Tail(@)]
                     /\ chunk' = [chunk EXCEPT ![m] = @ + 1]
                     /\ UNCHANGED <<mode, result>>
             /\ UNCHANGED <<size, tickets, have2, running, inflight>>

Do(m) == Ticket(m) \/ First(m) \/ Second(m) \/ Put(m) \/ Stop(m) \/ Finish(m)
Ended == \A m \in Mergers : mode[m] = "ended"

Next == (\E m \in Mergers : Do(m) /\ UNCHANGED sched) \/ Deliver \/ (Ended /\ UNCHANGED vars)
Fair == \A m \in Mergers : WF_vars(Do(m) /\ UNCHANGED sched)
Spec == Init /\ [][Next]_vars /\ Fair /\ WF_vars(Deliver)

\* --------------------------------------------------------------- properties
RECURSIVE Bags(_, _)
Bags(q, f) == IF q = <<>> THEN 0 ELSE q[1][f] + Bags(Tail(q), f)
RECURSIVE InSet(_, _)
InSet(S, f) == IF S = {} THEN 0 ELSE LET d == CHOOSE d \in S : TRUE IN d[3][f] + InSet(S \ {d}, f)
RECURSIVE SumF(_, _, _)
SumF(g, S, f) == IF S = {} THEN 0 ELSE LET m == CHOOSE m \in S : TRUE IN (IF g[m] = <<>> THEN 0 ELSE g[m][f]) + SumF(g, S \ {m}, f)
RECURSIVE Queued(_, _)
Queued(c, f) == IF c = 0 THEN 0 ELSE Bags(tasks[c], f) + Queued(c - 1, f)

\* every file is in exactly one place, once
Conserved == \A f \in Files : Queued(Len(size), f) + InSet(inflight, f) + SumF(have, Mergers, f) + SumF(have2, Mergers, f)
                              + (IF result = <<>> THEN 0 ELSE result[f]) = 1
\* the one that finishes finishes alone, when everything has been merged
FinishAlone == \A m \in Mergers : mode[m] = "finish" =>
                 (\A k \in Mergers \ {m} : mode[k] = "ended") /\ result = <<>>
                 /\ \A c \in chunk[m]..Len(size) : Len(tasks[c]) + Cardinality({d \in inflight : d[2] = c}) = 1
RightResult == Ended => result = [f \in Files |-> 1]
AllEnd == <>Ended
=============================================================================
