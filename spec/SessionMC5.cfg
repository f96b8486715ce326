SPECIFICATION Spec
CONSTANTS Depth = 5
 Emit = FALSE
INVARIANTS FunctionOfArguments Refines NothingLoaded CacheIntact
CHECK_DEADLOCK FALSE
