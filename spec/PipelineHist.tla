---------------------------- MODULE PipelineHist ----------------------------
(* All histories of abstract operations up to a depth, to be replayed on the code.  A run is a choice of options, request,  *)
(* output location and whether the vocabulary is asked for; edits are numbered.  Symmetry: the last run uses the first      *)
(* options and the first location.                                                                                           *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Edits, Depth
VARIABLE h
Runs == 1..16            \* 1 + options + 2 * request + 4 * location + 8 * vocabulary
Conf(r) == (r - 1) % 2
Loc(r) == ((r - 1) \div 4) % 2
LastRuns == {r \in Runs : Conf(r) = 0 /\ Loc(r) = 0}
Init == h = <<>>
Next == \/ /\ Len(h) < Depth - 1
           /\ \E o \in (IF h = <<>> THEN Runs ELSE Runs \cup {16 + e : e \in 1..Edits}) : h' = Append(h, o)
        \/ /\ Len(h) = Depth - 1
           /\ \E o \in LastRuns : h' = Append(h, o)
Spec == Init /\ [][Next]_h
Emit == Len(h) = Depth => PrintT(<<"HIST", h>>)
=============================================================================
