----------------------------- MODULE VocabSched -----------------------------
(* Complete runs of VocabMerge as schedules: which merger moves next, 0 for a delivery.  Run with -simulate. *)
EXTENDS VocabMergeMC
NextS == \/ \E m \in Mergers : Do(m) /\ sched' = Append(sched, m)
         \/ DeliverOne /\ sched' = Append(sched, 0)
Report == (Ended => PrintT(<<"SCHED", Cardinality(Mergers), size, sched>>))
SpecS == Init /\ [][NextS]_vars
=============================================================================
