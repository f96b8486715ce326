SPECIFICATION Spec
CONSTANT Lens = {0, 1, 2, 3, 9, 10, 11, 35, 36, 37, 60, 61, 62, 63, 100}
INVARIANT DecodesToMeaning
INVARIANT RejectedOnes
INVARIANT CliWithinApi
CHECK_DEADLOCK FALSE
