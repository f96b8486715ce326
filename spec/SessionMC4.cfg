SPECIFICATION Spec
CONSTANTS Depth = 4
 Emit = TRUE
INVARIANTS FunctionOfArguments Refines NothingLoaded CacheIntact EmitHist
CHECK_DEADLOCK FALSE
