----------------------------- MODULE RegistryMC -----------------------------
(***************************************************************************)
(* learn-bpe as it works on disk, with crashes: an id is assigned by one   *)
(* atomic step, results are written file by file into a temporary          *)
(* directory, which is renamed at the end.  Two datasets of the same name  *)
(* (the base of derived ids), learned with explicit or derived ids.        *)
(* Merges are abstract: the vocabulary allows MaxM merges, each a choice   *)
(* between Ties equally frequent pairs.                                    *)
(***************************************************************************)
EXTENDS Registry, TLC
CONSTANTS Keys, MaxM, Ties, Files, Runs
VARIABLES ids, dirs, work, runs

vars == <<ids, dirs, work, runs>>
Base == <<112>>
Wants == {NoId, <<112>>, <<120>>}           \* not given, the derived name itself, another one
Idle == [pc |-> "idle"]
\* dirs[k]: set of [name: number or -1 (temporary), files, m]
ListsOf(k) == {[n |-> d.name, m |-> d.m] : d \in {d \in dirs[k] : d.name >= 0}}
reg == [k \in Keys |-> [id |-> ids[k], lists |-> ListsOf(k)]]

Init == ids = [k \in Keys |-> NoId] /\ dirs = [k \in Keys |-> {}] /\ work = Idle /\ runs = 0

Begin == /\ work = Idle /\ runs < Runs
         /\ \E k \in Keys, w \in Wants, n \in 1..MaxM :
              work' = [pc |-> "id", k |-> k, want |-> w, ask |-> n]
         /\ runs' = runs + 1
         /\ UNCHANGED <<ids, dirs>>

\* a fresh derived id: the name, or the name with a number above all numbers in use
Number(id) == IF Derived(Base, id) /\ id # Base THEN id[Len(id)] - 48 ELSE 0
Fresh == IF Base \notin IdsOf(reg) THEN Base
         ELSE Base \o <<95, 49 + (CHOOSE m \in 0..9 : (\E i \in IdsOf(reg) : Number(i) = m) /\ (\A i \in IdsOf(reg) : Number(i) <= m))>>
Assign == /\ work.pc = "id"
          /\ LET k == work.k IN
             IF ids[k] # NoId THEN work' = [work EXCEPT !.pc = "learn"] /\ UNCHANGED ids
             ELSE IF work.want # NoId /\ work.want \in IdsOf(reg) THEN work' = Idle /\ UNCHANGED ids
             ELSE /\ ids' = [ids EXCEPT ![k] = IF work.want # NoId THEN work.want ELSE Fresh]
                  /\ work' = [work EXCEPT !.pc = "learn"]
          /\ UNCHANGED <<dirs, runs>>

Learn == /\ work.pc = "learn"
         /\ LET start == Longest(ListsOf(work.k), work.ask).m
            IN  \E ext \in [1..(work.ask - Len(start)) -> 1..Ties] :
                  LET m == start \o ext
                  IN  IF \E d \in dirs[work.k] : d.name = Len(m) THEN work' = Idle
                      ELSE work' = [pc |-> "clean", k |-> work.k, m |-> m]
         /\ UNCHANGED <<ids, dirs, runs>>

Clean == /\ work.pc = "clean"
         /\ dirs' = [dirs EXCEPT ![work.k] = {d \in @ : d.name >= 0} \cup {[name |-> -1, files |-> 0, m |-> work.m]}]
         /\ work' = [work EXCEPT !.pc = "write"]
         /\ UNCHANGED <<ids, runs>>
Write == /\ work.pc = "write"
         /\ \E d \in dirs[work.k] :
              /\ d.name = -1 /\ d.files < Files
              /\ dirs' = [dirs EXCEPT ![work.k] = (@ \ {d}) \cup {[d EXCEPT !.files = @ + 1]}]
         /\ UNCHANGED <<ids, work, runs>>
Rename == /\ work.pc = "write"
          /\ \E d \in dirs[work.k] :
              /\ d.name = -1 /\ d.files = Files
              /\ dirs' = [dirs EXCEPT ![work.k] = (@ \ {d}) \cup {[d EXCEPT !.name = Len(d.m)]}]
          /\ work' = Idle
          /\ UNCHANGED <<ids, runs>>
Crash == work # Idle /\ work' = Idle /\ UNCHANGED <<ids, dirs, runs>>

Next == Begin \/ Assign \/ Learn \/ Clean \/ Write \/ Rename \/ Crash
Spec == Init /\ [][Next]_vars

UniqueIds == \A a, b \in Keys : a # b /\ ids[a] # NoId => ids[a] # ids[b]
Named == \A k \in Keys : ListsOf(k) # {} => ids[k] # NoId
Complete == \A k \in Keys : \A d \in dirs[k] : d.name >= 0 => d.files = Files /\ Len(d.m) = d.name
OneEach == \A k \in Keys : \A d, e \in dirs[k] : d.name >= 0 /\ d.name = e.name => d = e
\* an id-n that can be resolved stands for the first n merges of one of the lists of that id, the smallest that is long enough
Resolves == \A k \in Keys : ids[k] # NoId =>
              \A n \in 1..MaxM :
                LET s == ids[k] \o <<45, 48 + n>>
                IN  IF Resolvable(reg, s)
                    THEN /\ KeyWith(reg, ids[k]) = {k}
                         /\ Len(Resolved(reg, s)) = n
                         /\ \E x \in ListsOf(k) : HasPrefix(Resolved(reg, s), x.m) /\ \A y \in ListsOf(k) : y.n >= n => x.n <= y.n
                    ELSE \A x \in ListsOf(k) : x.n < n
Kept == [][\A k \in Keys : /\ ids[k] # NoId => ids'[k] = ids[k]
                           /\ ListsOf(k) \subseteq {[n |-> d.name, m |-> d.m] : d \in {d \in dirs'[k] : d.name >= 0}}]_vars
\* every step of ids is one that the specification of ids allows
IdSteps == [][\A k \in Keys : ids'[k] # ids[k] => IdOK({ids[j] : j \in Keys \ {k}} \ {NoId}, ids[k], Base, work.want # NoId, work.want, ids'[k])]_vars
\* a new list extends the longest one that was there
Prefix == [][\A k \in Keys : \A d \in dirs'[k] : d.name >= 0 /\ (\A x \in ListsOf(k) : x.n # d.name)
               => \E n \in 1..MaxM : n >= d.name /\ HasPrefix(Longest(ListsOf(k), n).m, d.m)]_vars
=============================================================================
