CONSTANTS
 Counted = {"root", "sub", "f", "g"}
 Options = {"a", "b"}
 MaxEdits = 3
 MaxRuns = 3
 MaxCrashes = 2
SPECIFICATION Spec
INVARIANT Contract
CHECK_DEADLOCK FALSE
