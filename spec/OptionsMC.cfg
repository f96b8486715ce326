SPECIFICATION Spec
CONSTANT Lens = {0, 2, 30, 100}
INVARIANT DecodesToMeaning
INVARIANT RejectedOnes
INVARIANT CliWithinApi
CHECK_DEADLOCK FALSE
