----------------------------- MODULE VocabTrace -----------------------------
(* Recorded calculations of vocabularies (C12): tokens are numbers, occ[t] says how often token t is in each file that has it. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Tokens(occ) == DOMAIN occ

Exact(occ, rows) == /\ {rows[i][1] : i \in DOMAIN rows} = Tokens(occ)
                    /\ \A i \in DOMAIN rows : rows[i][2] = Sum(occ[rows[i][1]])
Once(rows) == Cardinality({rows[i][1] : i \in DOMAIN rows}) = Len(rows)
Sorted(rows) == \A i \in 2..Len(rows) : rows[i - 1][2] >= rows[i][2]

Bad(e) ==
  IF e.status = "hangs" THEN {"the calculation does not end"}
  ELSE IF e.status # "ended" THEN {"the calculation fails"}
  ELSE (IF Exact(e.occ, e.rows) THEN {} ELSE {"counts"})
       \cup (IF Once(e.rows) THEN {} ELSE {"a token listed twice"})
       \cup (IF Sorted(e.rows) THEN {} ELSE {"not the most frequent first"})
       \cup (IF e.size = Cardinality(Tokens(e.occ)) THEN {} ELSE {"size"})
       \cup (IF Exact(e.occ, e.loaded) /\ Once(e.loaded) THEN {} ELSE {"loaded vocabulary"})

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ \A c \in Bad(Trace[l]) : PrintT(<<"BAD", "C12", c, Trace[l].id, Trace[l].status>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
