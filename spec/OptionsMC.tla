------------------------------ MODULE OptionsMC ------------------------------
(***************************************************************************)
(* Every option set with no length or one of Lens: no two meanings share a code, a *)
(* code decodes to the meaning it was made from, the codes of acceptable   *)
(* option sets are valid and those of rejected ones are not.  Also writes  *)
(* the option sets, which are replayed into the real code.                 *)
(***************************************************************************)
EXTENDS Options, TLC, Json, IOUtils, SequencesExt
CONSTANT Lens
VARIABLE o

OptionSets == UNION {[cmd : {c}, codes : Codes(c), spaces : BOOLEAN, unicode : BOOLEAN, com : BOOLEAN, str : BOOLEAN, case : BOOLEAN, full : BOOLEAN,
                      nums : BOOLEAN, ronin : BOOLEAN, stem : BOOLEAN, max : Lens \cup {-1}] : c \in Cmds}
\* worth replaying: those acceptable in some way, and those one switch away from it
Near(x) == \E s \in Switches : x[s] /\ CliVerdict([x EXCEPT ![s] = FALSE]) # "no"
Replayed == {x \in OptionSets : CliVerdict(x) # "no" \/ Near(x)}

Init == o \in OptionSets
Next == UNCHANGED o
Spec == Init /\ [][Next]_o

Ok(x) == ApiVerdict(x) = "yes"
DecodesToMeaning == Ok(o) => DecVerdict(Encode(o)) = "yes" /\ Decode(Encode(o)) = Config(o)
RejectedOnes == ApiVerdict(o) = "no" => DecVerdict(Encode(o)) = "no"
CliWithinApi == CliVerdict(o) # "no" => Ok(o)

OkSets == {x \in OptionSets : Ok(x)}
ASSUME Injective == Cardinality({Encode(x) : x \in OkSets}) = Cardinality({<<Encode(x), Config(x)>> : x \in OkSets})
Dump == IF "DUMP" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.DUMP, SetToSeq(Replayed)) ELSE TRUE
ASSUME Dump
=============================================================================
