SPECIFICATION Spec
CONSTANTS Sizes <- Sizes4
          Mergers <- M3
INVARIANTS Conserved FinishAlone RightResult
PROPERTY AllEnd
CHECK_DEADLOCK TRUE
