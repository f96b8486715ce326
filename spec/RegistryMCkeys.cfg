CONSTANTS
 Keys = {1, 2, 3}
 MaxM = 2
 Ties = 2
 Files = 1
 Runs = 3
SPECIFICATION Spec
INVARIANTS UniqueIds Named Complete OneEach Resolves
PROPERTIES Kept IdSteps Prefix
CHECK_DEADLOCK FALSE
