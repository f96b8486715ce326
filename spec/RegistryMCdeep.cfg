CONSTANTS
 Keys = {1, 2}
 MaxM = 3
 Ties = 2
 Files = 2
 Runs = 3
SPECIFICATION Spec
INVARIANTS UniqueIds Named Complete OneEach Resolves
PROPERTIES Kept IdSteps Prefix
CHECK_DEADLOCK FALSE
