CONSTANTS
 Edits = 11
 Depth = 4
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
