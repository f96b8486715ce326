SPECIFICATION Spec
CONSTANTS Sizes <- Sizes5
          Mergers <- M2
INVARIANTS Conserved FinishAlone RightResult
PROPERTY AllEnd
CHECK_DEADLOCK TRUE
