---------------------------- MODULE RegistryHist ----------------------------
(* All histories of abstract steps up to a depth, to be replayed on the code.  0: edit of the first dataset; 1: corpus run  *)
(* that shares its vocabulary; others: a learning run, 2 + dataset + 2 * (number of merges + 3 * (options + 3 * (explicit   *)
(* id + 2 * killed))).  The first step is a learning run on the first dataset.                                              *)
EXTENDS Naturals, Sequences, TLC
CONSTANT Depth
VARIABLE h
Ops == 0..73
Learning(o) == o >= 2
First == {o \in Ops : Learning(o) /\ (o - 2) % 2 = 0}
Init == h = <<>>
Next == /\ Len(h) < Depth
        /\ \E o \in (IF h = <<>> THEN First ELSE IF Len(h) = Depth - 1 THEN {o \in Ops : Learning(o)} ELSE Ops) : h' = Append(h, o)
Spec == Init /\ [][Next]_h
Emit == Len(h) = Depth => PrintT(<<"HIST", h>>)
=============================================================================
