------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* One process that calls the text API.  The only state a process keeps    *)
(* between calls is which BPE codes are loaded; the result of a call never *)
(* depends on it unless a caller skips re-initialisation after having used *)
(* other codes (which the documentation forbids: the state is then Undef). *)
(*                                                                         *)
(* An operation is [m, id, force, fail]:                                   *)
(*   m     "plain" (no BPE data used), "bpe" (chars mode is BPE with the   *)
(*         codes "0", always re-initialised), "mutate" (the caller changes *)
(*         a list that an earlier call returned)                           *)
(*   fail  "no"; "early" the call fails before BPE data are touched        *)
(*         (unknown id, bad text); "load" the codes on disk are unreadable *)
(***************************************************************************)
EXTENDS Naturals, Sequences

None == "-none-"
Undef == "-undef-"

UsesBpe(op) == op.m = "bpe"

\* is the result of op a function of its arguments in this state?
Determined(loaded, op) ==
  /\ op.m # "mutate" /\ op.fail = "no"
  /\ UsesBpe(op) => op.force \/ loaded \in {None, op.id}

After(loaded, op) ==
  IF ~UsesBpe(op) \/ op.fail = "early" THEN loaded
  ELSE IF op.fail = "load" THEN (IF loaded \in {None, op.id} THEN loaded ELSE Undef)
  ELSE IF op.force \/ loaded \in {None, op.id} THEN op.id
  ELSE Undef

RECURSIVE LoadedAfter(_, _)
LoadedAfter(ops, n) == IF n = 0 THEN None ELSE After(LoadedAfter(ops, n - 1), ops[n])
=============================================================================
