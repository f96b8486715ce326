CONSTANTS
 Counted = {"root", "sub", "f", "g"}
 Options = {"a", "b"}
 MaxEdits = 2
 MaxRuns = 3
 MaxCrashes = 1
SPECIFICATION Spec
INVARIANT Contract
CHECK_DEADLOCK FALSE
