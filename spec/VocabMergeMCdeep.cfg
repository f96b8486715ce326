SPECIFICATION Spec
CONSTANTS Sizes <- Sizes6
          Mergers <- M3
INVARIANTS Conserved FinishAlone RightResult
PROPERTY AllEnd
CHECK_DEADLOCK TRUE
