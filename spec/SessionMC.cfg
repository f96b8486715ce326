SPECIFICATION Spec
CONSTANTS Depth = 3
 Emit = TRUE
INVARIANTS FunctionOfArguments Refines NothingLoaded CacheIntact EmitHist
CHECK_DEADLOCK FALSE
