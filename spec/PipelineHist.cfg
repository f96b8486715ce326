CONSTANTS
 Edits = 11
 Depth = 3
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
