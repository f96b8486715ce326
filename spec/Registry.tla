------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Learned BPE codes of a user (C15, C16).  The state is a registry: a     *)
(* function from codes keys (a dataset version with its options) to        *)
(* [id, lists]: an id (empty: none yet) and a set of learned lists [n, m]: *)
(* the number naming the list, and its merges.                             *)
(*                                                                         *)
(* Ids and list entries are sequences (of code points, of anything).       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

NoId == <<>>
None == [id |-> NoId, lists |-> {}]
Of(reg, k) == IF k \in DOMAIN reg THEN reg[k] ELSE None
Put(reg, k, e) == [x \in DOMAIN reg \cup {k} |-> IF x = k THEN e ELSE reg[x]]

IdsOf(reg) == {reg[k].id : k \in DOMAIN reg} \ {NoId}

----------------------------------------------------------------------------
\* which id codes may get

IsDigits(s) == s # <<>> /\ \A i \in DOMAIN s : s[i] \in 48..57
HasPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
\* derived from the name of the dataset: the name, or the name and a number
Derived(base, id) == \/ id = base
                     \/ /\ HasPrefix(base \o <<95>>, id)
                        /\ IsDigits(SubSeq(id, Len(base) + 2, Len(id)))

\* may the codes of key k, of which the id so far is old, have the id `new` after a learning run?
IdOK(others, old, base, wanted, want, new) ==
  IF old # NoId THEN new = old
  ELSE IF wanted THEN (IF want \in others \/ want = NoId THEN new = NoId ELSE new = want)
  ELSE new \notin others /\ new # NoId /\ Derived(base, new)

\* is such a run turned down?
Rejected(others, old, wanted, want) == old = NoId /\ wanted /\ (want \in others \/ want = NoId)

----------------------------------------------------------------------------
\* which lists a learning run starts from, and which one an id-n stands for

UpTo(lists, n) == {x \in lists : x.n <= n}
Longest(lists, n) == IF UpTo(lists, n) = {} THEN [n |-> 0, m |-> <<>>] ELSE CHOOSE x \in UpTo(lists, n) : \A y \in UpTo(lists, n) : y.n <= x.n
From(lists, n) == {x \in lists : x.n >= n}
Smallest(lists, n) == CHOOSE x \in From(lists, n) : \A y \in From(lists, n) : x.n <= y.n

\* the number after the last '-'
LastDash(s) == IF \E i \in DOMAIN s : s[i] = 45 THEN CHOOSE i \in DOMAIN s : s[i] = 45 /\ \A j \in (i + 1)..Len(s) : s[j] # 45 ELSE 0
WellFormed(s) == LET d == LastDash(s) IN /\ d > 0 /\ d < Len(s) /\ IsDigits(SubSeq(s, d + 1, Len(s))) /\ s[d + 1] # 48
IdPart(s) == SubSeq(s, 1, LastDash(s) - 1)
DigitsPart(s) == SubSeq(s, LastDash(s) + 1, Len(s))
NumberPart(s) == IF Len(DigitsPart(s)) > 8 THEN 99999999 ELSE FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, DigitsPart(s))

KeyWith(reg, id) == {k \in DOMAIN reg : reg[k].id = id /\ id # NoId}
Resolvable(reg, s) == WellFormed(s) /\ \E k \in KeyWith(reg, IdPart(s)) : From(reg[k].lists, NumberPart(s)) # {}
Resolved(reg, s) == LET k == CHOOSE k \in KeyWith(reg, IdPart(s)) : TRUE
                        n == NumberPart(s)
                        m == Smallest(reg[k].lists, n).m
                    IN  SubSeq(m, 1, IF n < Len(m) THEN n ELSE Len(m))      \* fewer: the list is misnamed, see CodesTrace
=============================================================================
