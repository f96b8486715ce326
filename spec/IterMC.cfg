SPECIFICATION Spec
CONSTANT MaxN = 7
INVARIANTS FullIsPrefix SubIsPrefix OnePerWord SubIndex Agree
PROPERTY Done
CHECK_DEADLOCK FALSE
